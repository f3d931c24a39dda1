//go:build go1.22

package verifharness

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"MODULE/ast"
	"MODULE/ast/astutils"
	"MODULE/environment"
	"MODULE/internal/verifsim"
	"MODULE/lexer"
	"MODULE/parser"
	"MODULE/token"
	gogen "MODULE/transforms/codegen/golang"
)

// libRun runs library callers as simulated threads of one process.
func (c *Ctx) libRun(mode, maxSw, gapMax int, limit uint64, fns ...func()) []*verifsim.Thread {
	s := c.newSim()
	s.Mode = mode
	if maxSw < 0 { // as many switches, but never fewer
		s.Dense = true
		maxSw = -maxSw
	}
	if maxSw > 0 {
		s.MaxSw = maxSw
	}
	if gapMax > 0 {
		s.GapMax = gapMax
	}
	k := verifsim.NewKernel(s)
	p := k.NewProc("caller", "/", "caller")
	var ts []*verifsim.Thread
	for i, fn := range fns {
		ts = append(ts, s.Go(fmt.Sprintf("caller%d", i), p, limit, fn))
	}
	dead := s.Run()
	c.done(s)
	for _, t := range ts {
		c.St.Steps += t.Steps
		c.Hash = verifsim.Mix(c.Hash ^ t.Steps)
	}
	if dead {
		c.fail("deadlock", "callers wait for each other for ever")
	}
	return ts
}

// solo runs one library caller in a fresh process.
func (c *Ctx) solo(limit uint64, fn func()) *verifsim.Thread {
	return c.libRun(verifsim.SwitchNone, 0, 0, limit, fn)[0]
}

// metered fails the run when fn allocates far more than in proportion to the n
// bytes of its input. Counting statements does not see a long string that is
// copied again and again.
func (c *Ctx) metered(n int, what string, fn func()) {
	if n < 3000 {
		fn()
		return
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	used := b.TotalAlloc - a.TotalAlloc
	for _, x := range []uint64{1, 2, 5, 10, 15} {
		if used/uint64(n) >= x<<10 {
			c.probe(fmt.Sprintf("over-%d-KB-allocated-per-byte", x))
		}
	}
	if used > 64<<20+uint64(n)*allocBound {
		c.fail("out-of-proportion", "%s allocates %d MB for %d bytes of input", what, used>>20, n)
	}
}

const allocBound = 24 << 10

// libCrashed fails the run when a library thread panicked or hung.
func (c *Ctx) libCrashed(t *verifsim.Thread, what, text string) {
	if t.Hung {
		c.fail("hang", "%s does not return within %d statements for %d bytes of source\n%s\nsource: %s", what, t.Steps, len(text), t.Stack, short(text))
	}
	if t.Panic != nil {
		c.fail("panic:"+t.PanicSite(), "%s panicked: %s\n%s\nsource: %s", what, t.PanicText(), t.Stack, short(text))
	}
}

// LTok is a token as the lexer reported it.
type LTok struct {
	Kind           token.Token
	Lit            string
	Off, Line, Col int
}

// lexAll scans src to the end; ok is false when the end does not come within
// max tokens.
func lexAll(src []byte, max int) (out []LTok, ok bool) {
	l := lexer.NewLexer(src)
	for len(out) < max {
		k, pos, lit := l.Scan()
		out = append(out, LTok{k, strings.Clone(lit), pos.Offset, pos.Line, pos.Column})
		if k == token.EOF {
			return out, true
		}
	}
	return out, false
}

func tokString(ts []LTok) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, "%d:%d@%d %d %q\n", t.Line, t.Col, t.Off, int(t.Kind), t.Lit)
	}
	return sb.String()
}

func parseSrc(src []byte, env *environment.Environment) (*ast.CDDL, parser.ErrorList) {
	l := lexer.NewLexer(src)
	var p *parser.Parser
	if env != nil {
		p = parser.NewParser(l, parser.WithEnv(env))
	} else {
		p = parser.NewParser(l)
	}
	return p.ParseFile()
}

// Diag is a diagnostic.
type Diag struct {
	Msg        string
	Start, End token.Position
}

func diagsOf(l parser.ErrorList) (out []Diag) {
	for _, e := range l {
		out = append(out, Diag{noAddrs(e.Error()), e.Start(), e.End()})
	}
	return
}

func diagString(ds []Diag) string {
	var sb strings.Builder
	for _, d := range ds {
		fmt.Fprintf(&sb, "%d:%d@%d-%d:%d@%d %s\n", d.Start.Line, d.Start.Column, d.Start.Offset, d.End.Line, d.End.Column, d.End.Offset, d.Msg)
	}
	return sb.String()
}

// dump renders a tree with all types, fields and positions.
func dump(v any) string {
	var sb strings.Builder
	dumpTo(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func dumpTo(sb *strings.Builder, v reflect.Value, depth int) {
	if sb.Len() > 32<<20 || depth > 100000 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dumpTo(sb, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(token.Position{}) {
			fmt.Fprintf(sb, "%d:%d@%d", v.FieldByName("Line").Int(), v.FieldByName("Column").Int(), v.FieldByName("Offset").Int())
			return
		}
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue
			}
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(v.Type().Field(i).Name)
			sb.WriteByte('=')
			dumpTo(sb, v.Field(i), depth+1)
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			dumpTo(sb, v.Index(i), depth+1)
		}
		sb.WriteByte(']')
	case reflect.String:
		sb.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Float32, reflect.Float64:
		sb.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		sb.WriteString(v.Kind().String())
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, fmt.Sprint(k))
		}
		sort.Strings(ks)
		fmt.Fprintf(sb, "map%v", ks)
	default:
		sb.WriteString(v.Kind().String())
	}
}

type counter struct {
	sb    *strings.Builder
	n     int
	limit int
}

func (w *counter) Visit(n ast.Node) astutils.Visitor {
	w.n++
	if n == nil {
		w.sb.WriteByte(')')
		return nil
	}
	fmt.Fprintf(w.sb, "(%T", n)
	return w
}

// walkTree walks a tree; a node kind the walker does not know is part of the
// result.
func walkTree(n ast.Node) (out string) {
	w := &counter{sb: &strings.Builder{}}
	defer func() {
		if e := recover(); e != nil {
			out = w.sb.String() + fmt.Sprintf(" panic: %v", e)
		}
	}()
	astutils.Walk(w, n)
	return w.sb.String()
}

func formatTree(n ast.Node) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	return astutils.Format(n)
}

// genCode generates Go from a tree; what the generator does not support is
// part of the result.
func genCode(pkg string, trees ...*ast.CDDL) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
	}()
	g := gogen.NewGenerator(pkg)
	for _, n := range trees {
		g.Visit(n)
	}
	var b bytes.Buffer
	if err := g.String(&b); err != nil {
		return "error: " + err.Error()
	}
	return b.String()
}

// linear bounds of the front end, in executed statements of the repository.
// The measured maximum is below 100 statements per byte; see DESIGN.md.
func stepBound(n int) uint64 { return uint64(20000 + 600*n) }

func ruleNames(tree *ast.CDDL) (out []string) {
	for _, e := range tree.Rules {
		if x, ok := e.(*ast.Rule); ok && x.Name != nil {
			out = append(out, x.Name.Name)
		}
	}
	return
}
