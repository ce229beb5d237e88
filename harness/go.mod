module verif/harness

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/ixtendio/gofre v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/ixtendio/gofre => /repo
