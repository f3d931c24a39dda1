// Package verifsim is a deterministic simulator for the processes and threads
// of the repository: one baton decides who runs, a simulated kernel serves
// every system call, and a Chooser decides every interleaving and fault.
package verifsim

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unicode/utf8"
	"unsafe"
)

// Thread is one simulated thread. Its address is the profile label of the
// goroutine that runs it; the leading words keep a traceback that prints
// labels harmless.
type Thread struct {
	_      [4]uintptr
	ID     int
	Name   string
	goid   uint64
	sim    *Sim
	Proc   *Proc
	resume chan struct{}
	done   bool
	block  bool // waiting for a lock, runnable only by chance of change
	kill   bool

	Steps  uint64
	stop   uint64
	limit  uint64 // step budget, 0 = none
	nextSw uint64 // step at which to offer a switch (statement mode)

	root  *Thread // the thread that, directly or not, started this goroutine
	Hung  bool    // exceeded its step budget
	Panic any     // uncaught panic value
	Stack string  // its stack
}

// Switch granularity of a simulation.
const (
	SwitchNone = iota
	SwitchSyscall
	SwitchStmt
)

// Sim is one simulated execution.
type Sim struct {
	Ch      *Chooser
	K       *Kernel
	Mode    int
	MaxSw   int  // most switches per run
	GapMax  int  // scale of the distance between switches
	Dense   bool // keep switching until MaxSw is reached
	Robin   bool // give every thread its turn, rather than choosing one
	Eager   bool // as long as they do not wait, root threads come first
	StopDen int  // dense: one in so many switches is the last
	threads []*Thread
	ctl     chan struct{}
	last    *Thread
	lastP   *Proc
	gap     int // system calls left before the next switch
	gapInf  bool
	sw      int
	Switch  int // switches taken
	Hash    uint64
	Trace   []string
	Tracing bool
	dead    bool // power lost: every thread must end
	Dead    string
	YSteps  uint64
	started bool
	idle    int
	chans   map[uintptr]*chanState
	keep    []any // channels seen, kept alive so that their addresses stay theirs
	Spawned int   // goroutines started by simulated code
}

var cur *Thread

// NewSim creates a simulation.
func NewSim(ch *Chooser) *Sim {
	return &Sim{Ch: ch, ctl: make(chan struct{}), Hash: 14695981039346656037, MaxSw: 64, GapMax: 64, StopDen: 256}
}

// Note adds an event to the event hash (and to the trace when tracing).
func (s *Sim) Note(f string, a ...any) {
	if s.Tracing {
		s.Trace = append(s.Trace, fmt.Sprintf(f, a...))
	}
}

func (s *Sim) mix(v uint64) { s.Hash = Mix(s.Hash ^ v*0x100000001b3) }

func (s *Sim) mixStr(v string) {
	h := uint64(14695981039346656037)
	for i := 0; i < len(v); i++ {
		h = (h ^ uint64(v[i])) * 1099511628211
	}
	s.mix(h)
}

// Go adds a thread. fn runs when the scheduler picks it.
func (s *Sim) Go(name string, p *Proc, limit uint64, fn func()) *Thread {
	t := &Thread{ID: len(s.threads), Name: name, sim: s, Proc: p, resume: make(chan struct{}), limit: limit}
	s.threads = append(s.threads, t)
	start := make(chan struct{})
	go func() {
		runtime.VerifSetLabel(unsafe.Pointer(t))
		t.goid = runtime.VerifGoid()
		close(start)
		<-t.resume
		defer func() {
			if e := recover(); e != nil {
				t.Panic = e
				buf := make([]byte, 8192)
				t.Stack = string(buf[:runtime.Stack(buf, false)])
				if t.Proc != nil {
					t.Proc.dead = true // an uncaught panic ends the process
				}
			}
			if r := t.root; r != nil && (t.Panic != nil || t.Hung) && !r.done && r.Panic == nil && !r.Hung {
				r.Panic, r.Hung, r.Stack, r.kill = t.Panic, t.Hung, t.Stack, true
			}
			t.done = true
			runtime.VerifRandOn = false
			cur = nil
			runtime.VerifSetLabel(nil)
			s.ctl <- struct{}{}
		}()
		if !t.kill {
			fn()
		}
	}()
	<-start
	return t
}

// Spawn starts a goroutine of the simulated program.
func Spawn(fn func()) {
	t := cur
	if t == nil || !t.mine() {
		go fn()
		return
	}
	if t.kill {
		return
	}
	s := t.sim
	on := runtime.VerifRandOn
	runtime.VerifRandOn = false
	n := s.Go(t.Name+"'", t.Proc, t.limit, fn)
	runtime.VerifRandOn = on
	n.root = t
	if t.root != nil {
		n.root = t.root
	}
	s.Spawned++
	s.mix(uint64(n.ID) + 991)
	if len(s.threads) > 4000 {
		panic("verifsim: more than 4000 goroutines")
	}
}

// Panics lists what the threads panicked with.
func (s *Sim) Panics() []any {
	var l []any
	for _, t := range s.threads {
		if t.Panic != nil {
			l = append(l, t.Panic)
		}
	}
	return l
}

// PanicText renders an uncaught panic.
func (t *Thread) PanicText() string {
	if t.Panic == nil {
		return ""
	}
	return fmt.Sprintf("%v", t.Panic)
}

// PanicSite names the first repository frame of the panicking stack.
func (t *Thread) PanicSite() string {
	lines := strings.Split(t.Stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.Contains(l, "internal/verif") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if j := strings.LastIndex(l, "/"); j > 0 {
			l = l[j+1:]
		}
		return l
	}
	return "?"
}

// Run schedules the threads until all are done. It reports a deadlock.
func (s *Sim) Run() (deadlock bool) {
	s.started = true
	s.newGap()
	var bufs [3][]*Thread
	for {
		ready := bufs[0][:0]
		roots := false
		for _, t := range s.threads {
			if !t.done {
				ready = append(ready, t)
				if t.root == nil {
					roots = true
				}
			}
		}
		bufs[0] = ready
		if len(ready) == 0 {
			break
		}
		for _, t := range ready {
			// goroutines end with their process, or with the threads under test
			if t.Proc != nil && t.Proc.dead || !roots {
				t.kill = true
			}
		}
		if s.dead {
			for _, t := range ready {
				t.kill = true
				if t.Proc != nil {
					t.Proc.dead = true
				}
			}
		}
		var t *Thread
		if len(ready) == 1 {
			t = ready[0]
		} else {
			// prefer threads not waiting for a lock, unless all wait
			free := bufs[1][:0]
			for _, r := range ready {
				if !r.block {
					free = append(free, r)
				}
			}
			bufs[1] = free
			if len(free) == 0 {
				s.idle++
				for _, r := range ready {
					r.block = false
				}
				free = ready
			}
			if len(free) > 1 && s.last != nil && !s.last.done {
				// a switch leaves the running thread
				other := bufs[2][:0]
				for _, r := range free {
					if r != s.last {
						other = append(other, r)
					}
				}
				bufs[2] = other
				free = other
			}
			if s.Eager {
				for _, r := range bufs[0] {
					if r.root == nil && !r.block {
						t = r
						break
					}
				}
			}
			if t != nil {
			} else if s.Robin && s.last != nil {
				t = free[0]
				for _, r := range free {
					if r.ID > s.last.ID {
						t = r
						break
					}
				}
			} else {
				t = free[s.Ch.N(len(free))]
			}
			if s.last != nil {
				s.Switch++
			}
			s.mix(uint64(t.ID) + 77)
		}
		if s.idle > 10000 {
			deadlock = true
			for _, r := range ready {
				r.kill = true
			}
		}
		s.dispatch(t)
	}
	s.last = nil
	if s.lastP != nil {
		s.lastP.save()
		s.lastP = nil
	}
	return deadlock
}

func (s *Sim) dispatch(t *Thread) {
	if t.Proc != nil && t.Proc != s.lastP {
		if s.lastP != nil {
			s.lastP.save()
		}
		t.Proc.load()
		s.lastP = t.Proc
	}
	s.last = t
	t.setStop()
	cur = t
	runtime.VerifRandOn = true
	t.resume <- struct{}{}
	<-s.ctl
	cur = nil
	runtime.VerifRandOn = false
}

func (s *Sim) newGap() {
	s.gapInf = false
	if s.Mode == SwitchNone || s.sw >= s.MaxSw {
		s.gapInf = true
		return
	}
	// 0 means no further switch
	if s.Dense {
		if s.Ch.N(s.StopDen) == 0 {
			s.gapInf = true
			return
		}
		s.sw++
		s.gap = 1 + s.Ch.LogN(s.GapMax)
		return
	}
	g := s.Ch.LogN(s.GapMax + 1)
	if g == 0 {
		s.gapInf = true
		return
	}
	s.sw++
	s.gap = g
}

func (t *Thread) setStop() {
	s := t.sim
	t.stop = ^uint64(0)
	if t.limit > 0 {
		t.stop = t.limit
	}
	if s.Mode == SwitchStmt && !s.gapInf {
		if n := t.Steps + uint64(s.gap); n < t.stop {
			t.stop = n
		}
	}
}

// Y is the scheduling point the overlay inserts before every statement.
func Y() {
	t := cur
	if t == nil {
		return
	}
	t.Steps++
	if t.Steps >= t.stop {
		t.slow()
	}
}

// ChargeScans makes scans of the standard library count as steps, one for
// every 16 bytes.
func ChargeScans(on bool) {
	var f func(int)
	if on {
		f = func(n int) {
			if t := cur; t != nil && t.mine() {
				t.Steps += uint64(n) / 16
			}
		}
	}
	bytes.VerifWork, strings.VerifWork, utf8.VerifWork = f, f, f
}

func (t *Thread) mine() bool { return runtime.VerifGoid() == t.goid }

func (t *Thread) slow() {
	if !t.mine() {
		return
	}
	if t.kill {
		t.stop = ^uint64(0)
		return
	}
	if t.limit > 0 && t.Steps >= t.limit {
		t.Hung = true
		t.kill = true
		t.stop = ^uint64(0)
		if t.Proc != nil {
			t.Proc.dead = true
		}
		buf := make([]byte, 4096)
		t.Stack = string(buf[:runtime.Stack(buf, false)])
		runtime.Goexit()
	}
	s := t.sim
	if s.Mode == SwitchStmt && !s.gapInf {
		s.newGap()
		t.yield()
	}
	t.setStop()
}

// yield hands the baton back and waits to be picked again.
func (t *Thread) yield() {
	if t.sim.othersReady(t) {
		t.sim.ctl <- struct{}{}
		<-t.resume
		if t.kill {
			if t.Proc != nil {
				t.Proc.dead = true
			}
			runtime.Goexit()
		}
	}
}

func (s *Sim) othersReady(t *Thread) bool {
	for _, o := range s.threads {
		if o != t && !o.done {
			return true
		}
	}
	return false
}

// Block is called by cooperative locks that cannot be taken yet.
func Block() {
	t := cur
	if t == nil || !t.mine() {
		runtime.Gosched()
		return
	}
	if t.kill {
		runtime.Goexit()
	}
	t.Steps++
	if t.limit > 0 && t.Steps >= t.limit {
		t.slow()
	}
	t.block = true
	if !t.sim.othersReady(t) {
		// waits for a lock nobody can release
		t.Hung = true
		t.kill = true
		t.Stack = "deadlock: waits for a lock that no running thread can release"
		runtime.Goexit()
	}
	t.yield()
	t.block = false
}

// Progress is called by cooperative primitives whenever their state changes:
// threads that wait for one of them look again.
func Progress() {
	t := cur
	if t == nil || !t.mine() {
		return
	}
	t.sim.idle = 0
	for _, o := range t.sim.threads {
		o.block = false
	}
}

// simulated reports whether the caller runs under the scheduler.
func simulated() *Thread {
	t := cur
	if t == nil || !t.mine() {
		return nil
	}
	return t
}

// Sched is runtime.Gosched of the simulated program.
func Sched() {
	t := simulated()
	if t == nil {
		runtime.Gosched()
		return
	}
	if t.kill {
		runtime.Goexit()
	}
	t.Steps++
	if t.limit > 0 && t.Steps >= t.limit {
		t.slow()
	}
	t.yield()
}

// Point offers a scheduling point to harness threads.
func Point() {
	t := cur
	if t == nil || !t.mine() {
		return
	}
	t.sim.syscallPoint(t)
}

// syscallPoint offers a switch in system call mode.
func (s *Sim) syscallPoint(t *Thread) {
	if s.Mode != SwitchSyscall || s.gapInf {
		return
	}
	s.gap--
	if s.gap <= 0 {
		s.newGap()
		t.yield()
	}
}

// ---- globals of the simulated program ----

type pkgGlobals struct {
	path   string
	ptrs   []any
	reinit func()
}

var packages []*pkgGlobals

// RegisterPackage is called by the overlay for every instrumented package, in
// initialisation order.
func RegisterPackage(path string, ptrs []any, reinit func()) {
	packages = append(packages, &pkgGlobals{path, ptrs, reinit})
}

// ResetGlobals puts every package-level variable back to its initial value by
// running the initialisers again.
func ResetGlobals() {
	for _, p := range packages {
		for _, x := range p.ptrs {
			reflect.ValueOf(x).Elem().SetZero()
		}
		p.reinit()
	}
}

func saveGlobals(old []reflect.Value) []reflect.Value {
	out := old[:0]
	for _, p := range packages {
		for _, x := range p.ptrs {
			v := reflect.ValueOf(x).Elem()
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			out = append(out, c)
		}
	}
	return out
}

func loadGlobals(vs []reflect.Value) {
	i := 0
	for _, p := range packages {
		for _, x := range p.ptrs {
			reflect.ValueOf(x).Elem().Set(vs[i])
			i++
		}
	}
}

// ---- maps shared between threads ----

// The runtime ends the process when a goroutine writes a map while another one
// uses it. Under the baton no two accesses ever overlap, so the simulator
// keeps each write open for one scheduling point instead: an access of another
// thread inside it is what the runtime would have found.

var openMaps map[unsafe.Pointer]*Thread

func clash(what string, t *Thread) {
	t.Panic = "fatal error: " + what
	buf := make([]byte, 8192)
	t.Stack = string(buf[:runtime.Stack(buf, false)])
	t.kill = true
	t.stop = ^uint64(0)
	if t.Proc != nil {
		t.Proc.dead = true
	}
	runtime.Goexit()
}

// MapW follows a write of map m.
func MapW[M ~map[K]V, K comparable, V any](m M) {
	t := cur
	if t == nil || t.sim.Mode != SwitchStmt || m == nil || !t.mine() || t.kill {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
	if o := openMaps[p]; o != nil && o != t && o.sim == t.sim && !o.done {
		clash("concurrent map writes", t)
	}
	if openMaps == nil {
		openMaps = map[unsafe.Pointer]*Thread{}
	}
	openMaps[p] = t
	defer func() {
		if openMaps[p] == t {
			delete(openMaps, p)
		}
	}()
	Y()
}

// MapR stands around the map of a read.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if len(openMaps) == 0 {
		return m
	}
	t := cur
	if t == nil || t.sim.Mode != SwitchStmt || !t.mine() || t.kill {
		return m
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
	if o := openMaps[p]; o != nil && o != t && o.sim == t.sim && !o.done {
		clash("concurrent map read and map write", t)
	}
	return m
}
