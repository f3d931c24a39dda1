package verifsim

import (
	"reflect"
	"runtime"
)

// Channels of the simulated program. Every channel operation in the
// instrumented sources comes here; values are queued beside the real channel,
// so that blocking is a decision of the scheduler. Values sent by foreign code
// (timers, signals, contexts) are still received from the real channel.

type chanItem struct {
	v     any
	taken bool
}

type chanState struct {
	q       []*chanItem
	closed  bool
	waiting int // receivers waiting
}

func (s *Sim) chanOf(c any) *chanState {
	p := reflect.ValueOf(c).Pointer()
	if s.chans == nil {
		s.chans = map[uintptr]*chanState{}
	}
	st := s.chans[p]
	if st == nil {
		st = &chanState{}
		s.chans[p] = st
		s.keep = append(s.keep, c)
	}
	return st
}

// GoStmts counts the go statements of the repository.
var GoStmts int

// GoCall is a go statement with arguments.
func GoCall(f any, args ...any) { goCall(false, f, args) }

// GoCallSlice is a go statement whose last argument is spread.
func GoCallSlice(f any, args ...any) { goCall(true, f, args) }

func goCall(spread bool, f any, args []any) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	var in []reflect.Value
	for i, a := range args {
		var pt reflect.Type
		if ft.IsVariadic() && i >= ft.NumIn()-1 && !spread {
			pt = ft.In(ft.NumIn() - 1).Elem()
		} else {
			pt = ft.In(i)
		}
		v := reflect.Zero(pt)
		if a != nil {
			v = reflect.ValueOf(a)
			if v.Type() != pt && v.Type().ConvertibleTo(pt) {
				v = v.Convert(pt)
			}
		}
		in = append(in, v)
	}
	Spawn(func() {
		if spread {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

// RangeInit starts a range clause over a channel.
func RangeInit[T any](c <-chan T) (<-chan T, T) {
	var z T
	return c, z
}

// SendTo is a send statement.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		t := simulated()
		if t == nil {
			c <- v
			return
		}
		for c == nil {
			Block()
		}
		st := t.sim.chanOf(c)
		for {
			if st.closed {
				panic("send on closed channel")
			}
			if cap(c) == 0 || len(st.q) < cap(c) {
				break
			}
			Block()
		}
		it := &chanItem{v: v}
		st.q = append(st.q, it)
		Progress()
		for cap(c) == 0 && !it.taken {
			if st.closed {
				panic("send on closed channel")
			}
			Block()
		}
	}
}

func tryRecv[T any](st *chanState, c <-chan T) (v T, ok, ready bool) {
	if len(st.q) > 0 {
		it := st.q[0]
		st.q = st.q[1:]
		it.taken = true
		if it.v != nil {
			v = it.v.(T)
		}
		Progress()
		return v, true, true
	}
	if st.closed {
		return v, false, true
	}
	select {
	case v, ok = <-c:
		return v, ok, true
	default:
	}
	return v, false, false
}

// Recv2 is a receive with its second result.
func Recv2[T any](c <-chan T) (T, bool) {
	t := simulated()
	if t == nil {
		v, ok := <-c
		return v, ok
	}
	for c == nil {
		Block()
	}
	st := t.sim.chanOf(c)
	for {
		if v, ok, ready := tryRecv(st, c); ready {
			return v, ok
		}
		st.waiting++
		func() {
			defer func() { st.waiting-- }()
			Block()
		}()
	}
}

// Recv is a receive expression.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Close is the builtin.
func Close[T any](c chan<- T) {
	t := simulated()
	if t != nil && c != nil {
		st := t.sim.chanOf(c)
		if !st.closed {
			st.closed = true
		}
	}
	close(c)
	Progress()
}

// Len is the builtin.
func Len[T any](c <-chan T) int {
	t := simulated()
	if t == nil || c == nil {
		return len(c)
	}
	if cap(c) == 0 {
		return 0
	}
	return len(c) + len(t.sim.chanOf(c).q)
}

// Case is one case of a select statement.
type Case struct {
	Index int
	v     any
	ok    bool
	try   func(s *Sim) (any, bool, bool)
	wait  func(s *Sim, d int)
	real  reflect.SelectCase
}

// RecvCase is a receiving case.
func RecvCase[T any](c <-chan T) *Case {
	return &Case{
		real: reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c)},
		try: func(s *Sim) (any, bool, bool) {
			if c == nil {
				return nil, false, false
			}
			return tryRecvAny(s.chanOf(c), c)
		},
		wait: func(s *Sim, d int) {
			if c != nil {
				s.chanOf(c).waiting += d
			}
		},
	}
}

func tryRecvAny[T any](st *chanState, c <-chan T) (any, bool, bool) {
	v, ok, ready := tryRecv(st, c)
	return v, ok, ready
}

// SendCase is a sending case.
func SendCase[T any](c chan<- T) func(T) *Case {
	return func(v T) *Case {
		return &Case{
			real: reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c), Send: reflect.ValueOf(&v).Elem()},
			try: func(s *Sim) (any, bool, bool) {
				if c == nil {
					return nil, false, false
				}
				st := s.chanOf(c)
				if st.closed {
					panic("send on closed channel")
				}
				if cap(c) == 0 && st.waiting <= len(st.q) || cap(c) > 0 && len(st.q) >= cap(c) {
					return nil, false, false
				}
				st.q = append(st.q, &chanItem{v: v})
				Progress()
				return nil, false, true
			},
			wait: func(*Sim, int) {},
		}
	}
}

// Select is a select statement; -1 means the default clause.
func Select(hasDefault bool, cs ...*Case) *Case {
	t := simulated()
	if t == nil {
		var rc []reflect.SelectCase
		for _, c := range cs {
			rc = append(rc, c.real)
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cs) {
			return &Case{Index: -1}
		}
		r := &Case{Index: i, ok: ok}
		if v.IsValid() {
			r.v = v.Interface()
		}
		return r
	}
	s := t.sim
	for {
		from := 0
		if len(cs) > 1 {
			on := runtime.VerifRandOn
			runtime.VerifRandOn = false
			from = s.Ch.N(len(cs))
			runtime.VerifRandOn = on
		}
		for j := range cs {
			i := (from + j) % len(cs)
			if v, ok, ready := cs[i].try(s); ready {
				return &Case{Index: i, v: v, ok: ok}
			}
		}
		if hasDefault {
			return &Case{Index: -1}
		}
		for _, c := range cs {
			c.wait(s, 1)
		}
		func() {
			defer func() {
				for _, c := range cs {
					c.wait(s, -1)
				}
			}()
			Block()
		}()
	}
}

// Val is what the chosen receiving case received.
func Val[T any](r *Case, c <-chan T) T {
	v, _ := Val2(r, c)
	return v
}

// Val2 is Val with the second result.
func Val2[T any](r *Case, _ <-chan T) (v T, ok bool) {
	if r.v != nil {
		v = r.v.(T)
	}
	return v, r.ok
}
