//go:debug panicnil=1
//go:debug randseednop=0

// Command harness decides the properties of /verif/properties.jsonl for the
// gofre working tree it is linked against, by generated-input search (rapid)
// against explicit oracles. See /verif/DESIGN.md.
package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Str is a string that survives JSON even when it is not valid UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	v := string(s)
	if !utf8.ValidString(v) || strings.HasPrefix(v, "b64:") {
		v = "b64:" + base64.StdEncoding.EncodeToString([]byte(v))
	}
	return json.Marshal(v)
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, "b64:") {
		d, err := base64.StdEncoding.DecodeString(v[4:])
		if err != nil {
			return err
		}
		v = string(d)
	}
	*s = Str(v)
	return nil
}

// Ctx is what one execution of a case reports about itself.
type Ctx struct {
	nontrivial bool
	classes    map[string]bool
}

// NonTrivial marks the case as non-trivial by the property's stated rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Class counts the case in a coverage class.
func (c *Ctx) Class(name string) { c.classes[name] = true }

// ClassIf counts the case in a coverage class when cond holds.
func (c *Ctx) ClassIf(cond bool, name string) {
	if cond {
		c.classes[name] = true
	}
}

type prop struct {
	id, rule        string
	quick, thorough int
	gen             func(*rapid.T) any
	run             func(*Ctx, any) error
	decode          func([]byte) (any, error)
}

var props = map[string]*prop{}

// several draws a count between lo and hi, and now and then one of up to many:
// some defects need a number of items that nobody writes down in a test.
func several(t *rapid.T, lo, hi, many int, label string) int {
	if rapid.IntRange(0, 24).Draw(t, label+" scale") == 24 {
		return rapid.IntRange(lo, many).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// register adds a property: gen draws a JSON-serialisable case, run executes it
// against the code under test and returns an error when the property is broken.
func register[C any](id, rule string, quick, thorough int, gen func(*rapid.T) C, run func(*Ctx, C) error) {
	if _, dup := props[id]; dup {
		panic("duplicate property " + id)
	}
	props[id] = &prop{
		id: id, rule: rule, quick: quick, thorough: thorough,
		gen: func(t *rapid.T) any {
			v := withNoise[C]{c: gen(t)}
			if !quietProps[id] {
				v.n = genNoise(t, id)
			}
			return v
		},
		run: func(c *Ctx, v any) error {
			w := v.(withNoise[C])
			curNoise.Store(w.n)
			c.ClassIf(w.n != nil, "with request noise")
			return run(c, w.c)
		},
		decode: func(b []byte) (any, error) {
			var v withNoise[C]
			err := json.Unmarshal(b, &v)
			return v, err
		},
	}
}

// ---- state shared with the watchdog ----

type inflight struct {
	data      []byte
	startCPU  time.Duration
	startWall time.Time
}

var (
	current     atomic.Pointer[inflight]
	currentFile *os.File
	currentLen  int
	reportMu    sync.Mutex
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	hangCPU  = 40 * time.Second
	hangWall = 150 * time.Second
)

func beginCase(data []byte) {
	if currentFile != nil {
		_, _ = currentFile.WriteAt(data, 0)
		if len(data) < currentLen {
			_ = currentFile.Truncate(int64(len(data)))
		}
		currentLen = len(data)
	}
	current.Store(&inflight{data: data, startCPU: cpuTime(), startWall: time.Now()})
}

func endCase() { current.Store(nil) }

// safeRun turns a panic of the code under test into a violation.
func safeRun(p *prop, c *Ctx, v any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return p.run(c, v)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

// ---- running ----

type quietTB struct{ failed bool }

type tbStop struct{}

func (q *quietTB) Helper()               {}
func (q *quietTB) Name() string          { return "harness" }
func (q *quietTB) Logf(string, ...any)   {}
func (q *quietTB) Log(...any)            {}
func (q *quietTB) Skipf(string, ...any)  { panic(tbStop{}) }
func (q *quietTB) Skip(...any)           { panic(tbStop{}) }
func (q *quietTB) SkipNow()              { panic(tbStop{}) }
func (q *quietTB) Errorf(string, ...any) { q.failed = true }
func (q *quietTB) Error(...any)          { q.failed = true }
func (q *quietTB) Fatalf(f string, a ...any) {
	q.failed = true
	panic(tbStop{})
}
func (q *quietTB) Fatal(...any) { q.failed = true; panic(tbStop{}) }
func (q *quietTB) FailNow()     { q.failed = true; panic(tbStop{}) }
func (q *quietTB) Fail()        { q.failed = true }
func (q *quietTB) Failed() bool { return q.failed }

type runner struct {
	p            *prop
	evaluations  int
	seen         map[uint64]struct{}
	classes      map[string]int
	samples      []json.RawMessage
	lastFailData []byte
	lastFailErr  error
	failures     int
}

func (r *runner) eval(v any, counting bool) error {
	data, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintf(os.Stderr, "harness error: cannot encode case: %v\n", err)
		os.Exit(2)
	}
	beginCase(data)
	c := &Ctx{classes: map[string]bool{}}
	rerr := safeRun(r.p, c, v)
	endCase()
	if rerr != nil {
		r.failures++
		r.lastFailData = data
		r.lastFailErr = rerr
		return rerr
	}
	if counting && r.failures == 0 {
		r.evaluations++
		for k := range c.classes {
			r.classes[k]++
		}
		if c.nontrivial {
			h := fnv.New64a()
			_, _ = h.Write(data)
			k := h.Sum64()
			if _, ok := r.seen[k]; !ok {
				r.seen[k] = struct{}{}
				// spread the samples over the run
				n := len(r.seen)
				if len(data) <= 4000 && (n == 1 || n == 10 || n == 100 || n == 1000 || n == 10000) {
					r.samples = append(r.samples, json.RawMessage(append([]byte(nil), data...)))
				}
			}
		}
	}
	return nil
}

// generate reports a panic of the generator itself, which rapid would take for a
// failing case, as a harness error. Rapid's own panics are of its own types.
func (r *runner) generate(t *rapid.T) any {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case runtime.Error, string:
				fmt.Fprintf(os.Stderr, "harness error: the generator of %s panicked: %v\n%s\n", r.p.id, x, debug.Stack())
				os.Exit(2)
			}
			panic(x)
		}
	}()
	return r.p.gen(t)
}

func (r *runner) batch(seed uint64, checks int) (failed bool) {
	_ = flag.Set("rapid.seed", fmt.Sprint(seed))
	_ = flag.Set("rapid.checks", fmt.Sprint(checks))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "20s")
	tb := &quietTB{}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(tbStop); !ok {
					panic(x)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			v := r.generate(t)
			if err := r.eval(v, true); err != nil {
				t.Fatalf("property violated")
			}
		})
	}()
	if r.failures > 0 {
		return true
	}
	if tb.failed {
		fmt.Fprintf(os.Stderr, "harness error: generator of %s failed (too few valid cases)\n", r.p.id)
		os.Exit(2)
	}
	return false
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "harness error: %v\n", err)
		os.Exit(2)
	}
}

func reportViolation(id, replayPath string, data []byte, err error) {
	reportMu.Lock()
	defer reportMu.Unlock()
	var m = map[string]any{"property": id, "case": json.RawMessage(data), "error": err.Error()}
	writeJSON(replayPath, m)
	fmt.Printf("property %s violated: %.6000s\ncase: %s\n", id, err, clip(string(data), 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func main() {
	testing.Init()
	var (
		id        = flag.String("prop", "", "property id")
		tier      = flag.String("tier", "quick", "quick or thorough")
		seed      = flag.Int64("seed", 1, "seed")
		evPath    = flag.String("evidence", "", "evidence file")
		repPath   = flag.String("replay-out", "replay.json", "where a violation's case is written")
		curPath   = flag.String("current", "", "file that always holds the case being executed")
		replay    = flag.String("replay", "", "execute the case of this replay file only")
		corpusDir = flag.String("corpus", "", "directory of regression cases <id>-*.json, run first")
		checks    = flag.Int("n", 0, "override the number of cases")
		budget    = flag.Duration("budget", 0, "wall budget; stop generating afterwards")
		shard     = flag.Int("shard", 0, "which part of the search this process does")
		shards    = flag.Int("shards", 1, "how many parts there are")
		hashes    = flag.String("hashes", "", "where the hashes of the distinct non-trivial cases are written")
		list      = flag.Bool("list", false, "list the property ids")
	)
	flag.Parse()
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "harness error: unknown property %q\n", *id)
		os.Exit(2)
	}
	if *curPath != "" {
		f, err := os.Create(*curPath)
		if err == nil {
			currentFile = f
		}
	}
	start := time.Now()
	factor := 8
	switch p.id {
	case "C13", "C22", "C47":
		factor = 2
	case "C33", "C41", "C42", "C01", "C02":
		factor = 4
	}
	n := p.quick * factor
	b := 60 * time.Second
	if *tier == "thorough" {
		n = p.thorough * factor
		b = 10 * time.Minute
	}
	if *checks > 0 {
		n = *checks
	}
	n = (n + *shards - 1) / *shards
	if *budget > 0 {
		b = *budget
	}
	r := &runner{p: p, seen: map[uint64]struct{}{}, classes: map[string]int{}}

	writeEvidence := func(violations int) {
		if *evPath == "" {
			return
		}
		if *hashes != "" {
			buf := make([]byte, 0, 8*len(r.seen))
			for k := range r.seen {
				buf = binary.LittleEndian.AppendUint64(buf, k)
			}
			_ = os.WriteFile(*hashes, buf, 0o644)
		}
		if r.samples == nil {
			r.samples = []json.RawMessage{}
		}
		writeJSON(*evPath, evidence{
			Property: p.id, Tier: *tier, Seed: *seed, Level: "exploration",
			Coverage: map[string]any{
				"evaluations": r.evaluations, "distinct_nontrivial": len(r.seen),
				"rule": p.rule, "samples": r.samples, "classes": r.classes,
			},
			WallS: time.Since(start).Seconds(), Violations: violations,
		})
	}

	// A case that does not come back is a violation too: nothing in the
	// properties' domain takes more than milliseconds.
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			c := current.Load()
			if c == nil {
				continue
			}
			cpu, wall := cpuTime()-c.startCPU, time.Since(c.startWall)
			if (cpu > hangCPU || wall > hangWall) && current.Load() == c {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "%s\n", buf)
				reportViolation(p.id, *repPath, c.data, fmt.Errorf("no answer after %.0fs of CPU time, %.0fs of wall time", cpu.Seconds(), wall.Seconds()))
				os.Exit(1)
			}
		}
	}()

	runFixed := func(path string) {
		raw, err := os.ReadFile(path)
		if err != nil {
			fmt.Fprintf(os.Stderr, "harness error: %v\n", err)
			os.Exit(2)
		}
		var m struct {
			Case json.RawMessage `json:"case"`
		}
		if err := json.Unmarshal(raw, &m); err != nil {
			fmt.Fprintf(os.Stderr, "harness error: %s: %v\n", path, err)
			os.Exit(2)
		}
		v, err := p.decode(m.Case)
		if err != nil {
			fmt.Fprintf(os.Stderr, "harness error: %s: %v\n", path, err)
			os.Exit(2)
		}
		if err := r.eval(v, *replay == ""); err != nil {
			if *replay == "" {
				writeEvidence(1)
			}
			reportViolation(p.id, *repPath, r.lastFailData, err)
			os.Exit(1)
		}
	}
	if *replay != "" {
		runFixed(*replay)
		fmt.Printf("replay of %s: property %s holds on this case\n", *replay, p.id)
		return
	}
	if *corpusDir != "" && *shard == 0 {
		files, _ := filepath.Glob(filepath.Join(*corpusDir, p.id+"-*.json"))
		sort.Strings(files)
		for _, f := range files {
			runFixed(f)
		}
	}

	base := uint64(*seed)*1_000_003 + 17
	const batchSize = 250
	for i, done := uint64(0), 0; done < n && time.Since(start) < b; i++ {
		k := min(batchSize, n-done)
		if r.batch(base+(i*uint64(*shards)+uint64(*shard))*7919+1, k) {
			writeEvidence(1)
			reportViolation(p.id, *repPath, r.lastFailData, r.lastFailErr)
			os.Exit(1)
		}
		done += k
	}
	writeEvidence(0)
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1fs, classes %v\n", p.id, r.evaluations, len(r.seen), time.Since(start).Seconds(), r.classes)
}
