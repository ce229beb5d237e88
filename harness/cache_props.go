package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/ixtendio/gofre/cache"
	"pgregory.net/rapid"
)

type cacheOp struct {
	Op  string `json:"op"` // add, remove, contains, sleep, fill (N keys of their own that live for hours)
	N   int    `json:"n,omitempty"`
	Key Str    `json:"k,omitempty"`
	Dur int64  `json:"d,omitempty"` // nanoseconds
}

type cacheCase struct {
	Ops  []cacheOp `json:"ops"`
	Long int       `json:"long,omitempty"`
}

type concCacheCase struct {
	Threads [][]cacheOp `json:"threads"`
	Spins   []int       `json:"spins"`
	Long    int         `json:"long,omitempty"`
}

var cacheKeys = []string{"a", "b", "A", "", "a ", "\xff", "nonce-1", "nonce-2"}

// a key that starts with a tilde is preceded by that many characters, chosen once per case
func longKey(k Str, long int) Str {
	if strings.HasPrefix(string(k), "~") {
		return Str(strings.Repeat("k", long)) + k
	}
	return k
}

// genCacheKey gives mostly one of the keys, sometimes one of two long ones that differ at the end.
func genCacheKey(t *rapid.T, keys []string) Str {
	if rapid.IntRange(0, 9).Draw(t, "longkey") == 9 {
		return rapid.SampledFrom([]Str{"~1", "~2"}).Draw(t, "keyend")
	}
	return Str(rapid.SampledFrom(keys).Draw(t, "key"))
}

// genFill is an addition of very many keys.
func genFill(t *rapid.T) cacheOp {
	return cacheOp{Op: "fill", N: rapid.SampledFrom([]int{10, 70, 130, 300, 520, 1030, 2050, 4100, 11000}).Draw(t, "fill")}
}

func fillKey(op, i int) string { return fmt.Sprintf("fill-%d-%d", op, i) }

// ---- C42: linearizability of every key ----

type cacheIn struct {
	op  string
	key string
	on  bool // Add with a lifetime that is over / far from over
}

var cacheModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(cacheIn).key
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, v := range by {
			out = append(out, v)
		}
		return out
	},
	Init: func() any { return false },
	Step: func(state, in, out any) (bool, any) {
		i := in.(cacheIn)
		switch i.op {
		case "add":
			return true, i.on
		case "remove":
			return true, false
		}
		return out.(bool) == state.(bool), state
	},
}

func init() {
	register("C41", "Histories of 2-30 additions (lifetimes from minus hours to hours, some of 1-3 ms), removals, queries and waits of 1-4 ms over eight keys and long ones that differ at their end, and now and then up to 11000 further keys at once; all keys are queried at the end. A query is judged only if the clock readings around the operations leave no doubt whether the lifetime has passed. Non-trivial: a judged query after a removal, a repeated addition or an expiry of its key.",
		1500, 8000, func(t *rapid.T) cacheCase {
			c := cacheCase{Long: genHuge(t)}
			sleeps := 0
			for n := several(t, 2, 30, 600, "nops"); n > 0; n-- {
				o := cacheOp{Key: genCacheKey(t, cacheKeys)}
				switch k := rapid.IntRange(0, 9).Draw(t, "op"); {
				case k <= 3:
					o.Op = "contains"
				case k <= 6:
					o.Op = "add"
					o.Dur = rapid.SampledFrom([]int64{int64(time.Hour), int64(time.Hour), int64(time.Minute), 0, -1, -int64(time.Hour), int64(time.Millisecond), 3 * int64(time.Millisecond), int64(1) << 61, math.MaxInt64}).Draw(t, "ttl")
				case k == 7 && rapid.IntRange(0, 19).Draw(t, "fillup") == 19:
					o = genFill(t)
				case k == 7 && rapid.IntRange(0, 499).Draw(t, "fillmuch") == 499:
					o = cacheOp{Op: "fill", N: rapid.SampledFrom([]int{40000, 70000}).Draw(t, "much")}
				case k == 7 && sleeps < 3:
					sleeps++
					o = cacheOp{Op: "sleep", Dur: int64(rapid.IntRange(1, 4).Draw(t, "ms")) * int64(time.Millisecond)}
				default:
					o.Op = "remove"
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		}, func(c *Ctx, cc cacheCase) error {
			type entry struct {
				before, after time.Time // clock around the addition
				ttl           time.Duration
			}
			im := cache.NewInMemory()
			live := map[string]entry{}
			touched := map[string]int{}
			query := func(i int, k string) error {
				q0 := time.Now()
				got := im.Contains(k)
				q1 := time.Now()
				e, ok := live[k]
				want := false
				if ok {
					switch {
					case e.ttl <= 0 || q0.Sub(e.after) > e.ttl:
						want = false
						c.Class("expired key")
					case q1.Sub(e.before) < e.ttl:
						want = true
						c.Class("contained key")
					default:
						c.Class("too close to call")
						return nil
					}
					if e.ttl > 0 && !want {
						touched[k]++
					}
				} else {
					c.Class("absent key")
				}
				if touched[k] > 0 {
					c.NonTrivial()
				}
				if got != want {
					return fmt.Errorf("operation %d: Contains(%.40q) of %d bytes is %v, want %v (ops %+v)", i, k, len(k), got, want, cc.Ops)
				}
				return nil
			}
			for i, o := range cc.Ops {
				k := string(longKey(o.Key, cc.Long))
				switch o.Op {
				case "add":
					if _, ok := live[k]; ok {
						touched[k]++
					}
					e := entry{ttl: time.Duration(o.Dur)}
					e.before = time.Now()
					if err := im.Add(k, time.Duration(o.Dur)); err != nil {
						return fmt.Errorf("operation %d: Add(%q) failed: %v", i, k, err)
					}
					e.after = time.Now()
					live[k] = e
				case "remove":
					if _, ok := live[k]; ok {
						touched[k]++
					}
					im.Remove(k)
					delete(live, k)
				case "fill":
					c.Class("many keys")
					for j := 0; j < o.N; j++ {
						e := entry{ttl: time.Hour, before: time.Now()}
						if err := im.Add(fillKey(i, j), e.ttl); err != nil {
							return fmt.Errorf("operation %d: Add failed: %v", i, err)
						}
						e.after = time.Now()
						live[fillKey(i, j)] = e
					}
				case "sleep":
					time.Sleep(time.Duration(o.Dur))
				case "contains":
					if err := query(i, k); err != nil {
						return err
					}
				}
			}
			for _, k := range cacheKeys {
				if err := query(len(cc.Ops), k); err != nil {
					return err
				}
			}
			for k := range live {
				if err := query(len(cc.Ops), k); err != nil {
					return err
				}
			}
			return nil
		})

	register("C42", "2-6 goroutines with 1-8 operations each (additions that live for hours or are expired at once, removals, queries) over 1-3 shared keys (now and then long ones, or thousands of keys of one goroutine), started together, with varying pauses; the history with its call and return times is checked for linearizability per key (porcupine), under the race detector. Non-trivial: two goroutines use one key and one of them adds or removes it.",
		1500, 12000, func(t *rapid.T) concCacheCase {
			c := concCacheCase{Long: genHuge(t)}
			keys := cacheKeys[:several(t, 1, 3, 8, "nkeys")]
			for n := several(t, 2, 6, 24, "threads"); n > 0; n-- {
				var ops []cacheOp
				for k := rapid.IntRange(1, 8).Draw(t, "nops"); k > 0; k-- {
					o := cacheOp{Op: rapid.SampledFrom([]string{"add", "add", "remove", "contains", "contains"}).Draw(t, "op"), Key: genCacheKey(t, keys)}
					if o.Op == "add" {
						o.Dur = rapid.SampledFrom([]int64{int64(time.Hour), int64(time.Hour), -1}).Draw(t, "ttl")
					}
					ops = append(ops, o)
				}
				c.Threads = append(c.Threads, ops)
			}
			if rapid.IntRange(0, 24).Draw(t, "fillup") == 24 {
				i := rapid.IntRange(0, len(c.Threads)-1).Draw(t, "filler")
				c.Threads[i] = append(c.Threads[i], genFill(t))
			}
			c.Spins = rapid.SliceOfN(rapid.IntRange(0, 200), 1, 6).Draw(t, "spins")
			return c
		}, func(c *Ctx, cc concCacheCase) error {
			var threads [][]cacheOp
			for _, ops := range cc.Threads {
				var t []cacheOp
				for _, o := range ops {
					o.Key = longKey(o.Key, cc.Long)
					t = append(t, o)
				}
				threads = append(threads, t)
			}
			cc.Threads = threads
			users := map[Str]map[int]bool{}
			writes := map[Str]bool{}
			for ti, ops := range cc.Threads {
				for _, o := range ops {
					if o.Op == "fill" {
						c.Class("many keys")
						continue
					}
					if users[o.Key] == nil {
						users[o.Key] = map[int]bool{}
					}
					users[o.Key][ti] = true
					writes[o.Key] = writes[o.Key] || o.Op != "contains"
				}
			}
			for k := range users {
				if len(users[k]) > 1 && writes[k] {
					c.NonTrivial()
				}
			}
			im := cache.NewInMemory()
			start := time.Now()
			var clock atomic.Int64
			now := func() int64 { return clock.Add(1) }
			_ = start
			var mu sync.Mutex
			var hist []porcupine.Operation
			var wg sync.WaitGroup
			gate := make(chan struct{})
			var spinSink atomic.Int64
			for ti, ops := range cc.Threads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var mine []porcupine.Operation
					<-gate
					for i, o := range ops {
						for s := cc.Spins[(ti*3+i)%len(cc.Spins)]; s > 0; s-- {
							spinSink.Add(1)
						}
						if o.Op == "fill" {
							for j := 0; j < o.N; j++ {
								_ = im.Add(fillKey(ti*100+i, j), time.Hour)
							}
							continue
						}
						p := porcupine.Operation{ClientId: ti, Input: cacheIn{o.Op, string(o.Key), o.Dur > 0}}
						p.Call = now()
						switch o.Op {
						case "add":
							_ = im.Add(string(o.Key), time.Duration(o.Dur))
							p.Output = false
						case "remove":
							im.Remove(string(o.Key))
							p.Output = false
						default:
							p.Output = im.Contains(string(o.Key))
						}
						p.Return = now()
						mine = append(mine, p)
					}
					mu.Lock()
					hist = append(hist, mine...)
					mu.Unlock()
				}()
			}
			close(gate)
			wg.Wait()
			for ti, ops := range cc.Threads {
				for i, o := range ops {
					for j := 0; o.Op == "fill" && j < o.N; j++ {
						if !im.Contains(fillKey(ti*100+i, j)) {
							return fmt.Errorf("goroutine %d added %d keys of its own and key %d is missing", ti, o.N, j)
						}
					}
				}
			}
			// the final state is part of the history
			for k := range users {
				p := porcupine.Operation{ClientId: len(cc.Threads), Input: cacheIn{op: "contains", key: string(k)}}
				p.Call = now()
				p.Output = im.Contains(string(k))
				p.Return = now()
				hist = append(hist, p)
			}
			overlap := false
			for i := range hist {
				for j := range hist[:i] {
					if hist[i].ClientId != hist[j].ClientId && hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return && hist[i].Input.(cacheIn).key == hist[j].Input.(cacheIn).key {
						overlap = true
					}
				}
			}
			c.ClassIf(overlap, "operations on one key overlapped")
			if porcupine.CheckOperationsTimeout(cacheModel, hist, 10*time.Second) == porcupine.Illegal {
				return fmt.Errorf("no sequential order of the operations on a key explains the results: %s", fmtHist(hist))
			}
			return nil
		})
}

func fmtHist(h []porcupine.Operation) string {
	s := ""
	for _, o := range h {
		i := o.Input.(cacheIn)
		s += fmt.Sprintf("\n  [%d,%d] goroutine %d %s(%.40q, live %v) = %v", o.Call, o.Return, o.ClientId, i.op, i.key, i.on, o.Output)
	}
	return s
}
