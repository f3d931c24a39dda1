//go:build go1.22

package verifharness

import (
	"errors"
	"fmt"
	"math"
	"regexp"
	"strings"
	"unsafe"

	"MODULE/internal/verifsim"
	"MODULE/runtime/validators"
)

func init() {
	props["C22"] = c22
}

// verdict is one call of a validator: what is called, what it has to answer
// and a way to do it. An answer is "true", "false", "ok" or "panic: ...".
type verdict struct {
	what string
	want string
	call func() string
}

func boolS(b bool) string { return fmt.Sprint(b) }

// answer runs a validator; a panic is an answer like any other.
func (v verdict) answer() (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic: %v", e)
		}
	}()
	return v.call()
}

func numeric[T validators.NumericOrdered](ch *verifsim.Chooser, pool []T) verdict {
	a, b, c := pool[ch.N(len(pool))], pool[ch.N(len(pool))], pool[ch.N(len(pool))]
	if ch.P(1, 4) {
		a = b
	}
	if ch.P(1, 4) {
		c = b
	}
	t := fmt.Sprintf("%T", a)
	switch ch.N(4) {
	case 0:
		return verdict{fmt.Sprintf("InExclusiveRange(%s %v, %v, %v)", t, a, b, c), boolS(a > b && a < c), func() string { return boolS(validators.InExclusiveRange(a, b, c)) }}
	case 1:
		return verdict{fmt.Sprintf("InInclusiveRange(%s %v, %v, %v)", t, a, b, c), boolS(a >= b && a <= c), func() string { return boolS(validators.InInclusiveRange(a, b, c)) }}
	case 2:
		return verdict{fmt.Sprintf("IsLessThan(%s %v, %v)", t, a, b), boolS(a < b), func() string { return boolS(validators.IsLessThan(a, b)) }}
	}
	return verdict{fmt.Sprintf("IsGreaterThan(%s %v, %v)", t, a, b), boolS(a > b), func() string { return boolS(validators.IsGreaterThan(a, b)) }}
}

type myInt int16

func genNumeric(ch *verifsim.Chooser) verdict {
	switch ch.N(9) {
	case 0:
		return numeric(ch, []int{-1, 0, 1, 2, 7, 41, 42, 43, 1 << 31, 1<<53 + 1, 1 << 53, math.MaxInt, math.MaxInt - 1, math.MinInt, math.MinInt + 1})
	case 1:
		return numeric(ch, []uint64{0, 1, 2, 42, 1<<53 + 1, 1 << 53, 1<<63 - 1, 1 << 63, math.MaxUint64 - 1, math.MaxUint64})
	case 2:
		return numeric(ch, []int8{-128, -127, -1, 0, 1, 126, 127})
	case 3:
		return numeric(ch, []uint8{0, 1, 127, 128, 254, 255})
	case 4:
		return numeric(ch, []float64{math.Inf(-1), -math.MaxFloat64, -1.5, -1, math.Copysign(0, -1), 0, 5e-324, 1, 1 + 2.220446049250313e-16, 1.5, 42, 1 << 53, 1e300, math.Inf(1), math.NaN()})
	case 5:
		return numeric(ch, []float32{float32(math.Inf(-1)), -1, 0, 1e-45, 1, 1.0000001, 1.5, 16777216, 3e38, float32(math.Inf(1)), float32(math.NaN())})
	case 6:
		return numeric(ch, []int64{-1 << 63, -1 << 62, -1, 0, 1, 42, 1<<62 + 1, 1 << 62, 1<<63 - 1})
	case 7:
		return numeric(ch, []uint{0, 1, 2, 1 << 32, 1<<32 - 1, math.MaxUint})
	}
	return numeric(ch, []myInt{-32768, -1, 0, 1, 32767})
}

var patterns = []string{
	"", "a", "^a", "a$", "^a$", "^$", "a|b", "(?i)abc", "^[a-z]+$", "^[0-9]{3}-[0-9]{4}$", `\.`, ".", "^.$", "(?s)^.$", `\x00`, "é", "^(a+)+$", "x*", `^\pL+$`, "(?m)^b$", "[^a]",
	"abc", "abd", "Abc", "abc$", "a.c", "a{2,3}", `^\w+@\w+\.\w+$`,
}

func genInputText(ch *verifsim.Chooser) string {
	base := []string{"", "a", "b", "abc", "abd", "ABC", "aa", "aaa", "xabc", "abc\n", "a\nb\nc", "555-1234", "555-12345", "a.c", "axc", "é", "ée", "\x00", "\xff", "a\xffc", "\xc3", "one@two.org", "one@two", " ", "\n"}
	s := base[ch.N(len(base))]
	switch ch.Weighted(6, 1, 1, 1) {
	case 1:
		s = strings.Repeat("a", ch.LogN(2000)) + s
	case 2:
		s = s + base[ch.N(len(base))]
	case 3:
		s = s + strings.Repeat("b", ch.LogN(200))
	}
	return s
}

type (
	pair  struct{ A, B int64 }
	small struct{ A byte }
	// cell has the name and not the size of the cell declared below
	cell struct{ A int64 }
)

func otherCell() any {
	type cell struct{ A, B, C int64 }
	return cell{}
}

// genVerdict draws one call. The compiled expressions are shared by all callers
// of the run, as those of generated code are.
func genVerdict(ch *verifsim.Chooser, res map[string]*regexp.Regexp) verdict {
	switch ch.Weighted(4, 4, 2, 1) {
	case 0:
		return genNumeric(ch)
	case 1:
		p := patterns[ch.N(len(patterns))]
		key := p
		own := ch.P(1, 4) // not shared
		if own {
			key = fmt.Sprintf("%s #%d", p, len(res))
		}
		re := res[key]
		if re == nil {
			re = regexp.MustCompile(p)
			if own && ch.P(1, 2) {
				re.Longest()
			}
			res[key] = re
		}
		s := genInputText(ch)
		return verdict{fmt.Sprintf("RegexpMatches(%q, %s)", p, short(s)), boolS(regexp.MustCompile(p).MatchString(s)), func() string { return boolS(validators.RegexpMatches(re, s)) }}
	case 2:
		vals := []any{int8(1), uint8(200), true, int16(3), uint16(9), int32(5), 'x', uint32(1), float32(1), 1, int64(2), uint64(3), 4.5, complex64(1), complex(1, 2), "", "a string", []byte(nil), []byte("bytes"), [3]byte{}, [100]int32{}, struct{}{}, pair{}, small{}, &pair{}, map[string]int(nil), myInt(3), cell{}, otherCell(), &small{}}
		i := ch.N(len(vals))
		v := vals[i]
		sizes := []uint{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 32, 399, 400, 401, 1 << 20, 1 << 32, 1<<32 + 1, math.MaxUint}
		n := sizes[ch.N(len(sizes))]
		return verdict{fmt.Sprintf("CheckSize(%T, %d)", v, n), boolS(sizeOf(v) < uintptr(n)), func() string { return boolS(validators.CheckSize(v, n)) }}
	}
	if ch.P(1, 2) {
		b := ch.P(1, 2)
		want := "ok"
		if !b {
			want = "panic"
		}
		return verdict{fmt.Sprintf("MustBool(%v)", b), want, func() string { validators.MustBool(b); return "ok" }}
	}
	var err error
	want := "ok"
	if ch.P(1, 2) {
		err = errors.New(fmt.Sprint("err", ch.N(5)))
		want = "panic: " + err.Error()
	}
	return verdict{fmt.Sprintf("MustNotErr(%v)", err), want, func() string { validators.MustNotErr(err); return "ok" }}
}

// sizeOf is the size of v in memory, without asking reflect for it.
func sizeOf(v any) uintptr {
	switch v := v.(type) {
	case int8, uint8, bool:
		return 1
	case int16, uint16, myInt:
		return 2
	case int32, uint32, float32:
		return 4
	case int, int64, uint64, float64, complex64, *pair, *small, map[string]int:
		return 8
	case complex128, string:
		return 16
	case []byte:
		return unsafe.Sizeof(v)
	case [3]byte:
		return 3
	case [100]int32:
		return 400
	case struct{}:
		return 0
	case pair:
		return 16
	case small:
		return 1
	case cell:
		return 8
	}
	return 24 // otherCell
}

func (v verdict) right(got string) bool {
	if v.want == "panic" {
		return strings.HasPrefix(got, "panic")
	}
	return got == v.want
}

// c22: validators decide by their arguments, whoever else is using them.
func c22(c *Ctx) {
	ch := c.Ch
	res := map[string]*regexp.Regexp{}
	n := 1 + ch.Weighted(1, 4, 3, 1)
	calls := make([][]verdict, n)
	got := make([][]string, n)
	total := 0
	for i := range calls {
		m := 1 + ch.LogN(12)
		if ch.P(1, 50) {
			m = 50 + ch.N(300)
			c.probe("many-calls")
		}
		for j := 0; j < m; j++ {
			if len(calls[i]) > 0 && ch.P(1, 5) { // once more
				calls[i] = append(calls[i], calls[i][ch.N(len(calls[i]))])
				continue
			}
			if i > 0 && ch.P(1, 6) { // what another caller asks
				calls[i] = append(calls[i], calls[i-1][ch.N(len(calls[i-1]))])
				continue
			}
			calls[i] = append(calls[i], genVerdict(ch, res))
		}
		got[i] = make([]string, len(calls[i]))
		total += len(calls[i])
	}
	c.shape("callers", n, total/4)
	var fns []func()
	for i := range calls {
		fns = append(fns, func() {
			for j, v := range calls[i] {
				got[i][j] = v.answer()
			}
		})
	}
	before := c.St.Switches
	ts := c.libRun(verifsim.SwitchStmt, -(2 + ch.N(200)), 1+ch.N(12), uint64(1000*total+10000), fns...)
	if c.St.Switches > before {
		c.fault("preemption")
		c.St.Faults["preemption"] += c.St.Switches - before - 1
	}
	for i, t := range ts {
		c.libCrashed(t, fmt.Sprintf("caller %d of %d", i, n), "")
		for j, v := range calls[i] {
			kind := v.what[:strings.IndexByte(v.what, '(')]
			c.shape(kind, v.want[:1])
			if !v.right(got[i][j]) {
				for x := range calls {
					for y, w := range calls[x] {
						c.logf("caller %d, call %d: %s gave %s", x, y, w.what, got[x][y])
					}
				}
				c.fail("verdict", "call %d of caller %d of %d, %s, gave %s, not %s", j, i, n, v.what, got[i][j], v.want)
			}
		}
	}
	if total > 1 {
		c.fault("earlier-calls")
	}
}
