//go:build go1.22

// Package verifharness holds the workloads, oracles and the search loop that
// decide the listed properties on the simulated repository.
package verifharness

import (
	"fmt"
	"sort"
	"strings"

	"MODULE/internal/verifsim"
)

// Main is the main function of the simulated command.
var Main func()

// Violation is a broken property.
type Violation struct {
	Class string
	Msg   string
}

type skip struct{ why string }

type harnessError struct{ msg string }

// Stats accumulates what the runs covered.
type Stats struct {
	Runs     int            `json:"runs"`
	Sims     int            `json:"sims"`
	SimNs    int64          `json:"sim_ns"`
	Calls    int            `json:"calls"`
	Steps    uint64         `json:"steps"`
	Switches int            `json:"switches"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Skipped  map[string]int `json:"skipped"`
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Probes: map[string]int{}, Skipped: map[string]int{}}
}

// Ctx is one run.
type Ctx struct {
	Ch      *verifsim.Chooser
	Tracing bool
	Deep    bool
	St      *Stats
	Lines   []string
	Hash    uint64 // event hash: equal runs have equal hashes
	Shape   uint64 // coarse shape: which behaviour this run exercised
	NonTriv bool
	Desc    []string // human description of the case
	cache   map[string]string
}

func (c *Ctx) logf(f string, a ...any) {
	if c.Tracing {
		c.Lines = append(c.Lines, fmt.Sprintf(f, a...))
	}
}

func (c *Ctx) desc(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.Desc = append(c.Desc, s)
	c.logf("# %s", s)
}

func (c *Ctx) fail(class, f string, a ...any) {
	panic(&Violation{class, fmt.Sprintf(f, a...)})
}

func (c *Ctx) skip(why string) { panic(&skip{why}) }

func (c *Ctx) probe(name string) { c.St.Probes[name]++ }

func (c *Ctx) fault(name string) { c.St.Faults[name]++; c.NonTriv = true }

func (c *Ctx) shape(parts ...any) {
	for _, p := range parts {
		for _, b := range []byte(fmt.Sprint(p)) {
			c.Shape = verifsim.Mix(c.Shape ^ uint64(b))
		}
	}
}

func bug(f string, a ...any) { panic(&harnessError{fmt.Sprintf(f, a...)}) }

// newSim starts a simulation segment of this run.
func (c *Ctx) newSim() *verifsim.Sim {
	s := verifsim.NewSim(c.Ch)
	s.Tracing = c.Tracing
	c.St.Sims++
	return s
}

// done books a finished simulation segment.
func (c *Ctx) done(s *verifsim.Sim) {
	// an invariant checked inside a system call of the simulated process
	for _, e := range s.Panics() {
		switch e.(type) {
		case *Violation, *harnessError, *skip:
			c.Hash = verifsim.Mix(c.Hash ^ s.Hash)
			if s.Tracing {
				c.Lines = append(c.Lines, s.Trace...)
			}
			panic(e)
		}
	}
	c.Hash = verifsim.Mix(c.Hash ^ s.Hash)
	c.St.Switches += s.Switch
	if s.Tracing {
		c.Lines = append(c.Lines, s.Trace...)
		s.Trace = nil
	}
	if s.K != nil {
		for t := range s.K.Unknown {
			bug("unsupported system call %d: extend the simulated kernel", t)
		}
	}
}

// bookProcs adds the fault counters of finished processes.
func (c *Ctx) bookProcs(ps ...*verifsim.Proc) {
	for _, p := range ps {
		for k, n := range p.Fired {
			if n > 0 {
				c.St.Faults[verifsim.FaultNames[k]] += n
				if k != verifsim.FNone {
					c.NonTriv = true
				}
			}
		}
		if p.OutHit {
			c.fault("stdout-write-error")
		}
		if p.ErrHit {
			c.fault("stderr-write-error")
		}
		c.St.Calls += p.N
		if p.Thread != nil {
			c.St.Steps += p.Thread.Steps
		}
		c.Hash = verifsim.Mix(c.Hash ^ hashStr(p.Status()) ^ hashStr(noAddrs(string(p.Stdout)))*3 ^ hashStr(noAddrs(string(p.Stderr)))*5)
	}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func short(s string) string {
	if len(s) > 120 {
		s = s[:60] + fmt.Sprintf("...(%d bytes)...", len(s)) + s[len(s)-40:]
	}
	return fmt.Sprintf("%q", s)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 20
	if lo < 0 {
		lo = 0
	}
	end := func(s string) string {
		hi := i + 30
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("first difference at byte %d: %q vs %q", i, end(a), end(b))
}

func joinLines(l []string) string { return strings.Join(l, "\n") }
