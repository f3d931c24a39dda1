//go:build go1.22

package verifharness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"MODULE/internal/verifsim"
)

// property functions run one simulated case.
var props = map[string]func(*Ctx){}

// Found is a minimised violation.
type Found struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Choices  []uint64 `json:"choices"`
	Original int      `json:"choices_before_minimising"`
	Tried    int      `json:"executions_while_minimising"`
	Case     []string `json:"case"`
	Trace    []string `json:"trace"`
	Hash     string   `json:"event_hash"`
}

type runResult struct {
	v       *Violation
	skipped string
	hash    uint64
	shape   uint64
	nontriv bool
	rec     []uint64
	desc    []string
	lines   []string
}

func runOne(prop string, ch *verifsim.Chooser, st *Stats, tracing, deep bool) (r runResult) {
	fn := props[prop]
	c := &Ctx{Ch: ch, Tracing: tracing, Deep: deep, St: st, Hash: 1, Shape: 1}
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case *Violation:
					r.v = x
				case *skip:
					r.skipped = x.why
				case *harnessError:
					fmt.Fprintf(os.Stderr, "harness error in %s: %s\n%s\n", prop, x.msg, strings.Join(c.Desc, "\n"))
					os.Exit(3)
				default:
					fmt.Fprintf(os.Stderr, "harness panic in %s: %v\n%s\n%s\n", prop, e, debug.Stack(), strings.Join(c.Desc, "\n"))
					os.Exit(3)
				}
			}
		}()
		runtime.VerifRandState = 1
		verifsim.ResetGlobals()
		fn(c)
	}()
	st.Runs++
	if r.skipped != "" {
		st.Skipped[r.skipped]++
	}
	r.hash, r.shape, r.nontriv, r.rec, r.desc, r.lines = c.Hash, c.Shape, c.NonTriv, ch.Rec, c.Desc, c.Lines
	if r.v != nil {
		r.hash = verifsim.Mix(r.hash ^ hashStr(r.v.Class))
	}
	return
}

var gcCount int

func maybeGC() {
	gcCount++
	if gcCount%16 == 0 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 256<<20 {
			runtime.GC()
		}
	}
}

// minimise shrinks the choice list while the same class of violation remains.
func minimise(prop string, choices []uint64, class string, deep bool, deadline time.Time, maxTries int) ([]uint64, int) {
	tries := 0
	scratch := newStats()
	ok := func(c []uint64) ([]uint64, bool) {
		if tries >= maxTries || time.Now().After(deadline) {
			return nil, false
		}
		tries++
		maybeGC()
		r := runOne(prop, verifsim.ReplayChooser(c), scratch, false, deep)
		if r.v != nil && r.v.Class == class {
			rec := r.rec
			for len(rec) > 0 && rec[len(rec)-1] == 0 {
				rec = rec[:len(rec)-1]
			}
			return append([]uint64(nil), rec...), true
		}
		return nil, false
	}
	less := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	best := append([]uint64(nil), choices...)
	if b, k := ok(best); k {
		best = b
	}
	for improved := true; improved; {
		improved = false
		// delete blocks
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if b, k := ok(c); k && less(b, best) {
					best = b
					improved = true
				} else {
					i += size
				}
			}
		}
		// zero blocks, then lower single values
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				z := true
				for _, v := range best[i : i+size] {
					if v != 0 {
						z = false
					}
				}
				if z {
					continue
				}
				c := append([]uint64(nil), best...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				if b, k := ok(c); k && less(b, best) {
					best = b
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			for _, v := range []uint64{best[i] / 2, best[i] - 1} {
				if i >= len(best) || v >= best[i] {
					continue
				}
				c := append([]uint64(nil), best...)
				c[i] = v
				if b, k := ok(c); k && less(b, best) {
					best = b
					improved = true
				}
			}
		}
		if tries >= maxTries || time.Now().After(deadline) {
			break
		}
	}
	return best, tries
}

// Job is one request from the master.
type Job struct {
	Prop    string   `json:"prop"`
	Seeds   []uint64 `json:"seeds"`
	Deep    bool     `json:"deep"`
	Again   bool     `json:"again"` // execute every seed twice and compare
	Choices []uint64 `json:"choices"`
	Replay  bool     `json:"replay"`
	Seed    uint64   `json:"seed"`
	Hashes  bool     `json:"hashes"`
	ShrinkS int      `json:"shrink_s"`
	Known   []string `json:"known"` // violation classes listed as known findings
	Stop    bool     `json:"stop"`
}

// Reply answers one job.
type Reply struct {
	Stats   *Stats           `json:"stats"`
	Shapes  []uint64         `json:"shapes"`
	Hashes  []uint64         `json:"hashes,omitempty"`
	Samples []map[string]any `json:"samples,omitempty"`
	Found   []*Found         `json:"found,omitempty"`
	Diverge []uint64         `json:"diverge,omitempty"`
	Replay  *Found           `json:"replay,omitempty"`
	Extra   map[string]any   `json:"extra,omitempty"`
	NonTriv int              `json:"nontriv"`
	// Distinct lists the event hashes met: two runs with equal hashes made the
	// same system calls, faults, switches and outputs.
	Distinct []uint64 `json:"distinct"`
}

// Worker serves jobs on standard input until it closes.
func Worker() int {
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(768 << 20)
	// start the runtime's helper goroutines outside any simulated thread
	x := new([16]byte)
	runtime.SetFinalizer(x, func(*[16]byte) {})
	y := new([16]byte)
	runtime.AddCleanup(y, func(int) {}, 1)
	x, y = nil, nil
	runtime.GC()
	_ = time.Now().Local().String()
	os.Environ()
	verifsim.Install()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(out)
	classes := map[string]bool{}
	for {
		var j Job
		if err := dec.Decode(&j); err != nil {
			return 0
		}
		if j.Stop {
			return 0
		}
		if props[j.Prop] == nil {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", j.Prop)
			return 3
		}
		rep := &Reply{Stats: newStats()}
		if j.Replay {
			r := runOne(j.Prop, verifsim.ReplayChooser(j.Choices), rep.Stats, true, j.Deep)
			f := &Found{Property: j.Prop, Seed: j.Seed, Choices: j.Choices, Case: r.desc, Trace: r.lines, Hash: fmt.Sprintf("%016x", r.hash)}
			if r.v != nil {
				f.Class, f.Message = r.v.Class, r.v.Msg
			}
			rep.Replay = f
		}
		seen := map[uint64]bool{}
		seenHash := map[uint64]bool{}
		for _, seed := range j.Seeds {
			fmt.Fprintf(out, "B %d\n", seed)
			out.Flush()
			maybeGC()
			r := runOne(j.Prop, verifsim.NewChooser(seed), rep.Stats, false, j.Deep)
			if r.nontriv && !seen[r.shape] {
				seen[r.shape] = true
				rep.Shapes = append(rep.Shapes, r.shape)
			}
			if r.nontriv {
				rep.NonTriv++
			}
			if len(rep.Samples) < 1 && r.nontriv && r.v == nil && r.skipped == "" {
				rep.Samples = append(rep.Samples, map[string]any{"seed": seed, "choices": len(r.rec), "case": r.desc})
			}
			if !seenHash[r.hash] {
				seenHash[r.hash] = true
				rep.Distinct = append(rep.Distinct, r.hash)
			}
			if j.Hashes {
				rep.Hashes = append(rep.Hashes, r.hash)
			}
			if j.Again {
				r2 := runOne(j.Prop, verifsim.NewChooser(seed), newStats(), false, j.Deep)
				if r2.hash != r.hash {
					rep.Diverge = append(rep.Diverge, seed)
				}
			}
			if r.v != nil && !classes[j.Prop+r.v.Class] {
				classes[j.Prop+r.v.Class] = true
				sec := j.ShrinkS
				if sec == 0 {
					sec = 20
				}
				known := false
				for _, k := range j.Known {
					known = known || k == r.v.Class
				}
				if known {
					rep.Found = append(rep.Found, &Found{Property: j.Prop, Seed: seed, Class: r.v.Class, Message: r.v.Msg, Choices: r.rec})
					continue
				}
				best, tries := minimise(j.Prop, r.rec, r.v.Class, j.Deep, time.Now().Add(time.Duration(sec)*time.Second), 4000)
				f := runOne(j.Prop, verifsim.ReplayChooser(best), newStats(), true, j.Deep)
				if f.v == nil || f.v.Class != r.v.Class {
					// not minimisable; report the original list
					best = r.rec
					f = runOne(j.Prop, verifsim.ReplayChooser(best), newStats(), true, j.Deep)
				}
				fd := &Found{Property: j.Prop, Seed: seed, Class: r.v.Class, Message: r.v.Msg, Choices: best, Original: len(r.rec), Tried: tries, Case: f.desc, Trace: f.lines, Hash: fmt.Sprintf("%016x", f.hash)}
				if f.v != nil {
					fd.Message = f.v.Msg
				}
				rep.Found = append(rep.Found, fd)
			}
		}
		fmt.Fprint(out, "R ")
		enc.Encode(rep)
		out.Flush()
	}
}
