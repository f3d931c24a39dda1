//go:build go1.22

package verifharness

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/bits"
	"os"
	"regexp"
	"runtime"
	"strings"
	"syscall"

	"MODULE/ast"
	"MODULE/environment"
	"MODULE/internal/verifsim"
	"MODULE/lexer"
	"MODULE/parser"
	"MODULE/token"
	gogen "MODULE/transforms/codegen/golang"
)

func init() {
	props["C09"] = c09
	props["C10"] = c10
	props["C11"] = c11
	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
	props["C16"] = c16
}

// sourceFor draws a source for a front end property.
func (c *Ctx) sourceFor(o genOpts) *Source {
	ch := c.Ch
	o.full = ch.P(2, 3)
	o.comments = ch.P(2, 3)
	if c.Deep && ch.P(1, 10) {
		o.rules = 20 + ch.N(200)
	}
	if ch.P(1, 300) {
		o.extreme = true
		c.probe("extreme-source")
	}
	return genSource(ch, o)
}

// damageSome applies 1..max damages.
func (c *Ctx) damageSome(text string, max int) (string, int) {
	ch := c.Ch
	other := ""
	if ch.P(1, 3) {
		other = genSource(ch, genOpts{full: true, comments: true, rules: 1 + ch.N(3)}).Text
	}
	first := len(text)
	n := 1 + ch.N(max)
	for i := 0; i < n; i++ {
		var at int
		var what string
		text, at, what = damage(ch, text, other)
		if at < first {
			first = at
		}
		c.fault("storage-" + what)
		c.desc("damage: %s at byte %d", what, at)
		c.shape(what)
	}
	return text, first
}

// junkUnits are repeated to long damaged inputs.
var junkUnits = []string{"(", "[", "{", "x = ", "a: ", "\"s\" ", "; c\n", "\xff", "1..", "& ", "#6.1(", "? ", "* ", "~", "/ ", "int\n", "\n", "=> ", ", ", "$", ".size ", "é", "x /= y\n", "x = int ; c\n", ". ", "+ ", "-", "0x", "9", "a", ") ", "x=[", "] x ", "\"", "a=>", "$x ", "= ", "y ", "\xff\n", "aa = bb\n", "1*2 "}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func project1(c *Ctx, text string) *verifsim.Kernel {
	k := verifsim.NewKernel(c.newSim())
	k.FS.MkdirAll("/w/s")
	k.FS.MkdirAll("/tmp")
	k.FS.Put("/w/cddlc.json", []byte(jsonConfig([]Build{{"p", "s", "o"}}, false)))
	k.FS.Put("/w/s/x.cddl", []byte(text))
	return k
}

// C09: damaged sources never crash or hang.
func c09(c *Ctx) {
	ch := c.Ch
	var text string
	big := ch.P(1, 24)
	switch {
	case big:
		// long inputs make a superlinear number of steps show itself
		if ch.P(1, 2) {
			c09scaling(c)
			return
		}
		unit := junkUnits[ch.N(len(junkUnits))]
		n := 1000 + ch.N(4000)
		if c.Deep {
			n *= 4
			if ch.P(1, 20) { // up to the full megabyte
				n = (1 << 20) / len(unit)
				if ch.P(1, 2) {
					n = ch.N(n) + 1
				}
			}
		}
		text = strings.Repeat(unit, n)
		if ch.P(1, 2) {
			text = "x = " + text
		}
		c.fault("storage-bytes-repeated")
		c.desc("%d copies of %q", n, unit)
	case ch.P(1, 12):
		n := ch.LogN(80)
		b := make([]byte, n)
		for i := range b {
			if ch.P(1, 2) {
				b[i] = oneOf(ch, "()[]{}\";.=/,:#&~*+?<>-'$@_0x\x00\xff\x80\xc3\n\r |\\ae1")
			} else {
				b[i] = byte(ch.N(256))
			}
		}
		text = string(b)
		c.fault("storage-garbage-file")
		c.desc("file of %d arbitrary bytes", n)
	default:
		s := c.sourceFor(genOpts{})
		text = s.Text
		if ch.P(15, 16) {
			text, _ = c.damageSome(text, 3)
		}
	}
	c.desc("source %s", short(text))
	c.shape(hashStr(text))
	var toks []LTok
	ended, stays := false, true
	var t *verifsim.Thread
	c.metered(len(text), "lexing", func() {
		t = c.solo(stepBound(len(text)), func() {
			toks, ended = lexAll([]byte(text), len(text)+2)
			if ended && !big {
				l := lexer.NewLexer([]byte(text))
				for range toks {
					l.Scan()
				}
				for i := 0; i < 4; i++ {
					k, _, _ := l.Scan()
					stays = stays && k == token.EOF
				}
			}
		})
	})
	c.libCrashed(t, "lexing", text)
	if !stays {
		c.fail("end-not-final", "after the end of file the lexer reports further tokens\nsource: %s", short(text))
	}
	if !ended {
		c.fail("lexer-stuck", "no end of file after %d tokens of a %d byte source\nsource: %s", len(toks), len(text), short(text))
	}
	ratio(c, "lex", t.Steps, len(text))
	var tree *ast.CDDL
	var ds []Diag
	c.metered(len(text), "parsing", func() {
		t = c.solo(stepBound(len(text)), func() {
			var el parser.ErrorList
			tree, el = parseSrc([]byte(text), nil)
			ds = diagsOf(el)
		})
	})
	c.libCrashed(t, "parsing", text)
	c.metered(len(text), "joining the diagnostics", func() {
		c.libCrashed(c.solo(stepBound(len(text)), func() {
			var el parser.ErrorList
			_, el = parseSrc([]byte(text), nil)
			_ = el.String()
			_ = el.Diagnostic()
		}), "joining the diagnostics", text)
	})
	ratio(c, "parse", t.Steps, len(text))
	if tree == nil && len(ds) == 0 {
		c.fail("no-result", "parsing returns neither a tree nor a diagnostic\nsource: %s", short(text))
	}
	if big && ch.P(3, 4) {
		return
	}
	for _, cmd := range [][]string{{"cddlc", "lex", "s/x.cddl"}, {"cddlc", "parse", "s/x.cddl"}, {"cddlc", "generate"}} {
		k := project1(c, text)
		q := k.NewProc(cmd[1], "/w", cmd...)
		noise(ch, q)
		run := func() { c.run(k, verifsim.SwitchNone, q) }
		if cmd[1] == "parse" { // the indentation of its listing is out of proportion
			run()
		} else {
			c.metered(len(text), cmd[1], run)
		}
		c.crashed(q, cmd[1] == "generate")
		if n := len(q.Stderr); n > 100000+2000*len(text) {
			c.fail("out-of-proportion", "%s prints %d bytes of diagnostics for a source of %d bytes", cmd[1], n, len(text))
		}
	}
}

// c09scaling compares the work for a damaged input with the work for one four
// times as long and otherwise alike.
func c09scaling(c *Ctx) {
	ch := c.Ch
	units := append([]string(nil), junkUnits...)
	// with a number in it, so that no two are alike
	units = append(units, "r%d = int\n", "r%d, ", "r%d: int, ", "r%d / ", "; c%d\n", "\"s%d\" ", "$r%d /= int\n", "%d ", "x = r%d\n", "r%d = [ ", "r%d = { a: tstr }\n", "\"s%d\nr = 1\n", "\xff%d\r\n", "r%d = 1..%d\n", "r%d = tstr .size %d\n", "? r%d, ", "; é%d\r\n", "r%d = #6.%d(int)\n", ") r%d\n")
	pick := func() string { return units[ch.N(len(units))] }
	var head, tail, open, shut string
	unit := pick()
	for ch.P(1, 3) {
		unit += pick()
	}
	if ch.P(1, 3) {
		head = []string{"x = ", "x = [ ", "x = { ", "\"", "; ", "x = (", "x = int\n", "x = \""}[ch.N(8)]
	}
	if ch.P(1, 3) {
		tail = []string{"\n", " ]\n", " }", "\"", ")", "\xff", "\ny = int\n"}[ch.N(7)]
	}
	if ch.P(1, 6) {
		i := ch.N(6)
		open, shut = []string{"(", "[", "{", "x = [ ", "a: { ", "& ("}[i], []string{")", "]", "}", " ]\n", " }, ", ")"}[i]
	}
	base := 400 + ch.N(400)
	if c.Deep {
		base += ch.N(4000)
	}
	build := func(n int) string {
		var b strings.Builder
		b.WriteString(head)
		b.WriteString(strings.Repeat(open, n))
		for i := 0; i < n; i++ {
			if strings.Contains(unit, "%d") {
				b.WriteString(strings.ReplaceAll(unit, "%d", fmt.Sprint(i)))
			} else {
				b.WriteString(unit)
			}
		}
		b.WriteString(strings.Repeat(shut, n))
		b.WriteString(tail)
		return b.String()
	}
	small, large := build(base), build(4*base)
	c.fault("storage-bytes-repeated")
	c.desc("%q + %d and %d times %q%q%q + %q", head, base, 4*base, open, unit, shut, tail)
	c.shape("scaling", head, unit, open, tail)
	verifsim.ChargeScans(true)
	defer verifsim.ChargeScans(false)
	grows := func(what string, work func(text string) uint64) {
		var steps, bytes [2]uint64
		for i, text := range []string{small, large} {
			a := allocated()
			steps[i] = work(text)
			bytes[i] = allocated() - a
		}
		if steps[1] > 6*steps[0]+100000 {
			c.fail("superlinear", "%s: %d steps for %d bytes, but %d steps for %d bytes of the same kind\nsource: %s", what, steps[0], len(small), steps[1], len(large), short(small))
		}
		if bytes[1] > 10*bytes[0]+6<<20 {
			c.fail("superlinear", "%s: %d KB of memory for %d bytes of source, but %d KB for %d bytes of the same kind\nsource: %s", what, bytes[0]>>10, len(small), bytes[1]>>10, len(large), short(small))
		}
		for _, x := range []uint64{4, 5} {
			if steps[1] > x*steps[0]+200000 {
				c.probe(fmt.Sprintf("steps-grow-over-%d-fold-with-4-fold-size", x))
			}
		}
		for _, x := range []uint64{5, 6, 8} {
			if bytes[1] > x*bytes[0]+4<<20 {
				c.probe(fmt.Sprintf("memory-grows-over-%d-fold-with-4-fold-size", x))
			}
		}
	}
	grows("lexing", func(text string) uint64 {
		t := c.solo(stepBound(len(text)), func() { lexAll([]byte(text), len(text)+2) })
		c.libCrashed(t, "lexing", text)
		return t.Steps
	})
	grows("parsing", func(text string) uint64 {
		t := c.solo(stepBound(len(text)), func() {
			_, el := parseSrc([]byte(text), nil)
			_ = el.String()
		})
		c.libCrashed(t, "parsing", text)
		return t.Steps
	})
	if ch.P(1, 2) {
		return
	}
	for _, cmd := range [][]string{{"cddlc", "lex", "s/x.cddl"}, {"cddlc", "generate"}} {
		grows(cmd[1], func(text string) uint64 {
			k := project1(c, text)
			q := k.NewProc(cmd[1], "/w", cmd...)
			c.run(k, verifsim.SwitchNone, q)
			c.crashed(q, cmd[1] == "generate")
			return q.Thread.Steps
		})
	}
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func ratio(c *Ctx, what string, steps uint64, n int) {
	if n < 200 {
		return
	}
	r := int(steps) / n
	for _, b := range []int{20, 50, 100, 200, 400, 800} {
		if r >= b {
			c.probe(fmt.Sprintf("%s-over-%d-statements-per-byte", what, b))
		}
	}
}

// C10: structural damage is always diagnosed.
func c10(c *Ctx) {
	ch := c.Ch
	s := c.sourceFor(genOpts{noFwd: ch.P(1, 2)})
	parse := func(text string) (ds []Diag) {
		t := c.solo(stepBound(len(text)), func() {
			_, el := parseSrc([]byte(text), nil)
			ds = diagsOf(el)
		})
		if t.Hung || t.Panic != nil {
			c.skip("front end crashes (C09)")
		}
		return
	}
	if ds := parse(s.Text); len(ds) != 0 {
		c.fail("intact-source-diagnosed", "an undamaged valid source gives\n%ssource:\n%s", diagString(ds), s.Text)
	}
	text, _ := c.damageSome(s.Text, 2)
	bad, why := structural(text)
	if strings.ContainsAny(text, "'\\") && why != "invalid UTF-8" {
		c.skip("byte strings and escapes are ambiguous")
	}
	c.shape(why, len(text))
	ds := parse(text)
	lines := strings.Split(text, "\n")
	for _, d := range ds {
		if d.Start.Line < 1 || d.Start.Line > len(lines) || d.Start.Column < 1 || d.Start.Column > len(lines[d.Start.Line-1])+1 {
			c.fail("diagnostic-outside-source", "diagnostic %q at line %d, column %d of a source of %d lines\nsource:\n%s", d.Msg, d.Start.Line, d.Start.Column, len(lines), text)
		}
	}
	if !bad {
		c.probe("damage-not-structural")
		return
	}
	c.probe("structural: " + why)
	if len(ds) == 0 {
		c.fail("damage-not-diagnosed", "%s, but parsing gives no diagnostic\nsource:\n%s", why, text)
	}
	k := project1(c, text)
	prior := ""
	if ch.P(1, 2) {
		prior = "package p\n// earlier output\n"
		k.FS.Put("/w/o/x.go", []byte(prior))
	}
	q := k.NewProc("generate", "/w", "cddlc", "generate")
	c.run(k, verifsim.SwitchNone, q)
	if q.Thread.Panic != nil || q.Thread.Hung {
		c.skip("generate crashes (C09)")
	}
	if q.OK() {
		c.fail("damage-accepted-by-generate", "%s, but generate exits 0\nsource:\n%s", why, text)
	}
	if b, ok := k.FS.ReadFile("/w/o/x.go"); ok != (prior != "") || string(b) != prior {
		c.fail("output-of-damaged-source", "%s; generate fails but the output is now %d bytes (before: %d)\nsource:\n%s", why, len(b), len(prior), text)
	}
}

// C11: what precedes the damage is unaffected by it.
func c11(c *Ctx) {
	s := c.sourceFor(genOpts{noFwd: true})
	dmg, at := c.damageSome(s.Text, 2)
	c.desc("source %s", short(dmg))
	c.shape(hashStr(dmg))
	lex := func(text string) (ts []LTok) {
		ok := false
		t := c.solo(stepBound(len(text)), func() { ts, ok = lexAll([]byte(text), len(text)+2) })
		if t.Hung || t.Panic != nil || !ok {
			c.skip("front end crashes (C09)")
		}
		return
	}
	compare := func(which, text string, got []LTok, limit int) {
		for i, w := range s.Toks {
			if w.Off+len(w.Raw) > limit {
				return
			}
			if w.Kind == token.COMMENT && limit < len(s.Text) && w.Off+len(w.Raw)+1 > limit {
				return
			}
			if i >= len(got) {
				c.fail("token-lost", "%s source: token %d %q at offset %d is missing\nsource:\n%s", which, i, w.Raw, w.Off, text)
			}
			g := got[i]
			// identity of literal tokens, the kind and the place of all
			if g.Kind != w.Kind || g.Off != w.Off || g.Line != w.Line || g.Col != w.Col || g.Lit != w.Lit {
				c.fail("token-wrong", "%s source: token %d is %s %q at offset %d, line %d, column %d; it truly is %s %q at offset %d, line %d, column %d (damage at %d)\nsource:\n%s",
					which, i, g.Kind, g.Lit, g.Off, g.Line, g.Col, w.Kind, w.Lit, w.Off, w.Line, w.Col, at, text)
			}
		}
		if limit >= len(s.Text) && len(got) != len(s.Toks)+1 {
			c.fail("token-wrong", "%s source: %d tokens instead of %d\nsource:\n%s", which, len(got)-1, len(s.Toks), text)
		}
	}
	compare("intact", s.Text, lex(s.Text), 1<<30)
	compare("damaged", dmg, lex(dmg), at-4)

	type res struct {
		rules []string
		names []string
		ds    []Diag
	}
	parse := func(text string) (r res) {
		t := c.solo(stepBound(len(text)), func() {
			tree, el := parseSrc([]byte(text), nil)
			r.ds = diagsOf(el)
			if tree == nil {
				return
			}
			for _, e := range tree.Rules {
				if x, ok := e.(*ast.Rule); ok && x.Name != nil {
					r.rules = append(r.rules, dump(x))
					r.names = append(r.names, x.Name.Name)
				}
			}
		})
		if t.Hung || t.Panic != nil {
			c.skip("front end crashes (C09)")
		}
		return
	}
	a, b := parse(s.Text), parse(dmg)
	if len(a.ds) > 0 || len(a.rules) != len(s.Rules) {
		c.fail("intact-rules-wrong", "%d rules and %d diagnostics from an undamaged source of %d rules\n%ssource:\n%s", len(a.rules), len(a.ds), len(s.Rules), diagString(a.ds), s.Text)
	}
	last := -1
	for i, r := range s.Rules {
		if a.names[i] != r.Name {
			c.fail("intact-rules-wrong", "rule %d is %q instead of %q\nsource:\n%s", i, a.names[i], r.Name, s.Text)
		}
		if i+1 >= len(s.Rules) {
			break
		}
		nx := s.Toks[s.Rules[i+1].First+1] // the assignment of the next rule
		if nx.Off+len(nx.Raw) > at-4 {
			break
		}
		if i >= len(b.rules) || a.rules[i] != b.rules[i] {
			got := "missing"
			if i < len(b.rules) {
				got = firstDiff(a.rules[i], b.rules[i])
			}
			c.fail("rule-affected", "rule %d (%s) ends at byte %d, well before the damage at %d, but its tree is %s\nintact source:\n%s\ndamaged source:\n%s", i, r.Name, r.EndOff, at, got, s.Text, dmg)
		}
		last = i
	}
	if last >= 0 {
		c.probe("rules-before-the-damage")
		head := s.Toks[s.Rules[last].First]
		start := head.Off
		for _, d := range b.ds {
			if d.Start.Offset < start || d.Start.Line < head.Line || d.Start.Line == head.Line && d.Start.Column < head.Col {
				c.fail("diagnostic-before-damage", "%q at offset %d, line %d, column %d, but rule %d, starting at %d, is complete before the damage at %d\nsource:\n%s", d.Msg, d.Start.Offset, d.Start.Line, d.Start.Column, last, start, at, dmg)
			}
		}
	}
}

// one caller's complete result
type callRes struct {
	toks, tree, diags, format, walk, code string
}

func (r callRes) diff(o callRes) (string, string, string) {
	for _, x := range [][3]string{{"tokens", r.toks, o.toks}, {"diagnostics", r.diags, o.diags}, {"tree", r.tree, o.tree}, {"formatted tree", r.format, o.format}, {"walk", r.walk, o.walk}, {"generated code", r.code, o.code}} {
		if x[1] != x[2] {
			return x[0], x[1], x[2]
		}
	}
	return "", "", ""
}

func process(text, pkg string, withCode, twice bool) (r callRes) {
	ts, ok := lexAll([]byte(text), len(text)+2)
	r.toks = tokString(ts)
	if !ok {
		r.toks += "no end"
	}
	tree, el := parseSrc([]byte(text), nil)
	if withCode && tree != nil {
		r.code = genCode(pkg, tree)
	}
	if tree != nil {
		for _, x := range tree.Rules {
			r.format += formatTree(x) + "\n"
			if ru, ok := x.(*ast.Rule); ok && ru.Value != nil {
				r.format += formatTree(ru.Value) + "\n"
			}
		}
		r.walk = walkTree(tree)
	}
	if withCode && tree != nil && twice {
		r.code += genCode(pkg, tree)
	}
	r.diags = diagString(diagsOf(el))
	r.tree = dump(tree)
	return
}

// C12: concurrent front ends are independent.
func c12(c *Ctx) {
	ch := c.Ch
	n := 2 + ch.Weighted(4, 2, 1)
	type job struct {
		text, pkg string
		code      bool
		twice     bool
	}
	var jobs []job
	size := 0
	for i := 0; i < n; i++ {
		full := ch.P(1, 3)
		s := genSource(ch, genOpts{full: full, comments: true, rules: 1 + ch.LogN(5)})
		j := job{text: s.Text, pkg: []string{"alpha", "beta", "gamma", "delta"}[i], code: !full, twice: ch.P(1, 4)}
		if ch.P(1, 10) { // nested deeply
			m := 5 + ch.N(40)
			j.text += "\ndeep = " + strings.Repeat([]string{"[ a: ", "( a: ", "{ a: "}[ch.N(3-b2i(!full))], m) + "int"
			j.text += strings.Repeat(map[byte]string{'[': " ]", '(': " )", '{': " }"}[j.text[strings.LastIndex(j.text, "a: ")-2]], m) + "\n"
		}
		switch ch.Weighted(5, 2, 1, 3) {
		case 1:
			j.text, _, _ = damage(ch, s.Text, "")
			j.code = false
			c.fault("damaged-source")
		case 3:
			if i > 0 { // the same shape with other contents: the callers do the same thing at the same time
				j = jobs[i-1]
				j.text = twin(ch, j.text)
				j.pkg = []string{"alpha", "beta", "gamma", "delta"}[i]
			}
		case 2:
			if i > 0 { // the same source as another caller
				j = jobs[ch.N(i)]
				j.pkg = []string{"alpha", "beta", "gamma", "delta"}[i]
			}
		}
		jobs = append(jobs, j)
		size += len(j.text)
	}
	limit := stepBound(size) * 4
	want := make([]callRes, n)
	for i, j := range jobs {
		t := c.solo(limit, func() { want[i] = process(j.text, j.pkg, j.code, j.twice) })
		if t.Hung || t.Panic != nil {
			c.skip("front end crashes alone (C09)")
		}
		c.desc("caller %d: code=%v %s", i, j.code, short(j.text))
	}
	if ch.P(1, 5) {
		// one after the other in one process, in another order, each several times
		order := []int{}
		for i := 0; i < n*2; i++ {
			order = append(order, ch.N(n))
		}
		got := make([]callRes, len(order))
		t := c.solo(limit*4, func() {
			for x, i := range order {
				got[x] = process(jobs[i].text, jobs[i].pkg, jobs[i].code, jobs[i].twice)
			}
		})
		c.libCrashed(t, "a later call in the same process", "")
		for x, i := range order {
			if what, a, b := want[i].diff(got[x]); what != "" {
				c.fail("history-dependent", "call %d of %v: the %s of caller %d differ from those of the first call in a fresh process: %s", x, order, what, i, firstDiff(a, b))
			}
		}
		c.fault("processed-earlier-in-process")
		c.shape("seq", order)
	}
	rounds := 1
	if c.Deep {
		rounds = 3
	}
	for r := 0; r < rounds; r++ {
		var fns []func()
		chains := make([][]int, n)
		got := make([][]callRes, n)
		for i := range jobs {
			chains[i] = []int{i}
			for ch.P(1, 3) && len(chains[i]) < 4 { // and more of its own
				chains[i] = append(chains[i], ch.N(n))
			}
			got[i] = make([]callRes, len(chains[i]))
			fns = append(fns, func() {
				for x, k := range chains[i] {
					got[i][x] = process(jobs[k].text, jobs[k].pkg, jobs[k].code, jobs[k].twice)
				}
			})
		}
		gap := []int{16, 64, 256, 1024, 4096}[ch.N(5)]
		sw := []int{8, 64, 400}[ch.N(3)]
		if ch.P(2, 3) {
			gap = []int{2, 8, 32, 256}[ch.N(4)]
			sw = -[]int{100, 1000, 5000}[ch.N(3)]
		}
		before := c.St.Switches
		ts := c.libRun(verifsim.SwitchStmt, sw, gap, limit*4, fns...)
		if c.St.Switches > before {
			c.fault("preemption")
			c.St.Faults["preemption"] += c.St.Switches - before - 1
		}
		c.shape(n, gap, sw, bits.Len(uint(c.St.Switches-before)))
		for i, j := range jobs {
			c.shape(j.code, j.twice, bits.Len(uint(len(j.text))), len(chains[i]))
		}
		for i, t := range ts {
			c.libCrashed(t, fmt.Sprintf("caller %d among %d concurrent callers", i, n), jobs[i].text)
		}
		for i := range ts {
			for x, k := range chains[i] {
				if what, a, b := want[k].diff(got[i][x]); what != "" {
					c.fail("interference", "the %s of call %d of caller %d differ from those obtained alone: %s\nits source:\n%s", what, x, i, firstDiff(a, b), jobs[k].text)
				}
			}
		}
	}
}

var twinWord = regexp.MustCompile(`\.[a-z]+|"[^"\n]*"|[a-zA-Z_$@][\w.\-]*[\w]|[0-9]+`)

// twin replaces the contents of a source and keeps its shape: names by names
// of the same length, numbers by numbers, operators by operators.
func twin(ch *verifsim.Chooser, text string) string {
	rot := 1 + ch.N(20)
	ops := []string{".size", ".bits", ".regexp", ".cbor", ".cborseq", ".within", ".and", ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".default"}
	return twinWord.ReplaceAllStringFunc(text, func(w string) string {
		shift := func(w string) string {
			b := []byte(w)
			for i, x := range b {
				switch {
				case x >= 'a' && x <= 'z':
					b[i] = 'a' + (x-'a'+byte(rot))%26
				case x >= 'A' && x <= 'Z':
					b[i] = 'A' + (x-'A'+byte(rot))%26
				}
			}
			return string(b)
		}
		switch {
		case w[0] == '.':
			for i, o := range ops {
				if o == w {
					return ops[(i+rot)%len(ops)]
				}
			}
			return w
		case w[0] == '"':
			return shift(w)
		case w[0] >= '0' && w[0] <= '9':
			b := []byte(w)
			for i := range b {
				if b[i] >= '1' && b[i] <= '8' {
					b[i]++
				}
			}
			return string(b)
		}
		if kw[w] != 0 {
			return w
		}
		return shift(w)
	})
}

// C13: the lexer works on a private snapshot.
func c13(c *Ctx) {
	ch := c.Ch
	// several sources in one buffer, each a slice with capacity to its end
	n := 1 + ch.N(3)
	var texts []string
	var buf []byte
	var starts []int
	for i := 0; i < n; i++ {
		s := c.sourceFor(genOpts{rules: 1 + ch.LogN(4)})
		t := s.Text
		if ch.P(1, 3) {
			t, _ = c.damageSome(t, 1)
		}
		starts = append(starts, len(buf))
		texts = append(texts, t)
		buf = append(buf, t...)
	}
	spare := ch.N(20)
	for i := 0; i < spare; i++ {
		buf = append(buf, 0xA5)
	}
	orig := string(buf)
	part := func(b []byte, i int) []byte {
		s := b[starts[i] : starts[i]+len(texts[i])]
		if spare == 0 && ch.P(1, 4) {
			s = s[:len(s):len(s)]
		}
		return s
	}
	size := len(buf)
	limit := stepBound(size) * 4
	want := make([]callRes, n)
	for i := range texts {
		t := c.solo(limit, func() { want[i] = process(texts[i], "p", false, false) })
		if t.Hung || t.Panic != nil {
			c.skip("front end crashes alone (C09)")
		}
		c.desc("part %d: %s", i, short(texts[i]))
	}
	unchanged := func(when string, b []byte) {
		if string(b) != orig {
			c.fail("buffer-written", "%s: the caller's buffer changed: %s", when, firstDiff(orig, string(b)))
		}
	}
	// 1. lexers over neighbouring parts of one buffer, scanned alternately
	{
		b := []byte(orig)
		toks := make([][]LTok, n)
		plan := make([]int, 0)
		for i := 0; i < 8; i++ {
			plan = append(plan, ch.N(n))
		}
		t := c.solo(limit, func() {
			ls := make([]*lexer.Lexer, n)
			order := plan
			for _, i := range order {
				if ls[i] == nil {
					ls[i] = lexer.NewLexer(part(b, i))
				}
			}
			for i := range ls {
				if ls[i] == nil {
					ls[i] = lexer.NewLexer(part(b, i))
				}
			}
			done := 0
			end := make([]bool, n)
			for k := 0; done < n; k++ {
				i := plan[k%len(plan)]
				if end[i] {
					for i = 0; end[i]; i++ {
					}
				}
				tk, pos, lit := ls[i].Scan()
				toks[i] = append(toks[i], LTok{tk, lit, pos.Offset, pos.Line, pos.Column})
				if tk == token.EOF || len(toks[i]) > len(texts[i])+2 {
					end[i] = true
					done++
				}
			}
		})
		c.libCrashed(t, "alternate lexing", orig)
		unchanged("after lexing", b)
		for i := range toks {
			if got := tokString(toks[i]); got != want[i].toks {
				c.fail("neighbour-disturbed", "the tokens of part %d, lexed next to the other parts of the buffer, differ: %s\nbuffer: %q", i, firstDiff(want[i].toks, got), orig)
			}
		}
		c.shape(plan)
	}
	// 2. parsing leaves the buffer alone
	{
		b := []byte(orig)
		i := ch.N(n)
		t := c.solo(limit, func() { parseSrc(part(b, i), nil) })
		c.libCrashed(t, "parsing", orig)
		unchanged("after parsing", b)
	}
	// 2b. nobody ever sees the buffer changed, while callers work on its parts
	{
		b := []byte(orig)
		calls := make([]callRes, n)
		left := n
		var fns []func()
		for i := range texts {
			in := part(b, i)
			parse := ch.P(1, 2)
			fns = append(fns, func() {
				defer func() { left-- }()
				l := lexer.NewLexer(in)
				if parse {
					tree, el := parser.NewParser(l).ParseFile()
					calls[i].tree, calls[i].diags = dump(tree), diagString(diagsOf(el))
					return
				}
				var ts []LTok
				for k := 0; k < len(in)+2; k++ {
					tk, pos, lit := l.Scan()
					ts = append(ts, LTok{tk, strings.Clone(lit), pos.Offset, pos.Line, pos.Column})
					if tk == token.EOF {
						break
					}
				}
				calls[i].toks = tokString(ts)
			})
		}
		seen := ""
		fns = append(fns, func() {
			for k := 0; left > 0 && seen == "" && k < 20000; k++ {
				if string(b) != orig {
					seen = string(b)
				}
				verifsim.Y()
			}
		})
		before := c.St.Switches
		// the callers run in turns of a few statements, the watcher in between
		ts := c.libRun(verifsim.SwitchStmt, -[]int{50, 400, 3000}[ch.N(3)], []int{2, 4, 16, 64}[ch.N(4)], limit, fns...)
		if c.St.Switches > before {
			c.fault("preemption")
		}
		for x := range texts {
			c.libCrashed(ts[x], "working on a part of a shared buffer", orig)
		}
		if seen != "" {
			c.fail("buffer-written", "while callers work on the parts of the buffer, another thread sees it changed: %s", firstDiff(orig, seen))
		}
		unchanged("after callers worked on the parts of the buffer at the same time", b)
		for x, g := range calls {
			if g.toks != "" && g.toks != want[x].toks {
				c.fail("neighbour-disturbed", "the tokens of part %d, lexed at the same time as the other parts of the buffer, differ: %s\nbuffer: %q", x, firstDiff(want[x].toks, g.toks), orig)
			}
			if g.tree != "" && (g.tree != want[x].tree || g.diags != want[x].diags) {
				c.fail("neighbour-disturbed", "part %d, parsed at the same time as the other parts of the buffer, gives something else: %s%s\nbuffer: %q", x, firstDiff(want[x].tree, g.tree), firstDiff(want[x].diags, g.diags), orig)
			}
		}
	}
	// 3. the caller overwrites the buffer while the lexer is at work
	junk := func(b []byte, kind int) {
		for i := range b {
			switch kind {
			case 0:
				b[i] = 0
			case 1:
				b[i] = 'x'
			case 2:
				b[i] = "\n()\"=;"[i%6]
			case 3:
				b[i] = orig[(i+7)%len(orig)]
			}
		}
	}
	i := ch.N(n)
	kind := ch.N(4)
	{
		b := []byte(orig)
		at := ch.LogN(len(texts[i]) + 2)
		var toks []LTok
		t := c.solo(limit, func() {
			l := lexer.NewLexer(part(b, i))
			for k := 0; k <= len(texts[i])+2; k++ {
				if k == at {
					junk(b, kind)
				}
				tk, pos, lit := l.Scan()
				toks = append(toks, LTok{tk, lit, pos.Offset, pos.Line, pos.Column})
				if tk == token.EOF {
					break
				}
			}
			junk(b, (kind+1)%4)
		})
		c.libCrashed(t, "lexing a buffer that is reused", orig)
		if got := tokString(toks); got != want[i].toks {
			c.fail("tokens-follow-buffer", "the buffer was overwritten before scan %d; the tokens differ: %s\nsource:\n%s", at, firstDiff(want[i].toks, got), texts[i])
		}
		c.fault("buffer-overwritten")
	}
	// 4. ... from another thread while parsing, and after it
	{
		b := []byte(orig)
		var l *lexer.Lexer
		var tree *ast.CDDL
		var ds []Diag
		t := c.solo(limit, func() { l = lexer.NewLexer(part(b, i)) })
		c.libCrashed(t, "creating a lexer", orig)
		before := c.St.Switches
		ts := c.libRun(verifsim.SwitchStmt, 32, []int{32, 256, 2048}[ch.N(3)], limit, func() {
			var el parser.ErrorList
			tree, el = parser.NewParser(l).ParseFile()
			ds = diagsOf(el)
		}, func() {
			for r := 0; r < 4; r++ {
				junk(b, (kind+r)%4)
				for s := 0; s < 64; s++ {
					verifsim.Y()
				}
			}
		})
		if c.St.Switches > before {
			c.fault("preemption")
		}
		c.libCrashed(ts[0], "parsing a buffer that is overwritten", orig)
		junk(b, kind)
		if got := dump(tree); got != want[i].tree {
			c.fail("tree-follows-buffer", "the buffer was overwritten during and after parsing; the tree differs: %s\nsource:\n%s", firstDiff(want[i].tree, got), texts[i])
		}
		if got := diagString(ds); got != want[i].diags {
			c.fail("tree-follows-buffer", "the buffer was overwritten during and after parsing; the diagnostics differ: %s\nsource:\n%s", firstDiff(want[i].diags, got), texts[i])
		}
	}
}

// ---- C14: the session environment ----

type sessInput struct {
	text   string
	kind   string
	rules  []sessRule
	broken bool // ends in a rule that does not parse
	remark int  // length of a damaged remark in front
	wild   bool // arbitrary damage: only existing bindings are checked
	bname  string
	names  []string // beyond sessNames
}

type sessRule struct {
	name    string
	nameOff int
	assign  string
	refs    map[string][]int // name -> offsets
	bounds  []int            // offsets of names given as a bound, which may be of the wrong kind
}

var sessNames = append([]string{"aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh", "count", "flag", "@aa", "_bb", "$cc", "$$dd", "$aa"}, likeNames...)

// likeNames are distinct names that a careless reader could take for one
// another.
var likeNames = []string{"AA", "Aa", "a-a", "a_a", "a.a", "aa-", "aa.", "aa_", "aa1", "aa01", "aa1.0",
	strings.Repeat("n", 31) + "x", strings.Repeat("n", 31) + "y", strings.Repeat("m-", 32) + "x", strings.Repeat("m-", 32) + "y", strings.Repeat("long", 64) + "x", strings.Repeat("long", 64) + "y"}

func sessName(ch *verifsim.Chooser) string {
	if ch.P(1, 12) {
		return likeNames[ch.N(len(likeNames))]
	}
	return sessNames[ch.N(len(sessNames)-len(likeNames))]
}

// genInput draws one input of a session. known is what the model says is
// defined.
func genInput(ch *verifsim.Chooser, known map[string]bool) *sessInput {
	in := &sessInput{}
	var sb strings.Builder
	key := func(k string) string { // a member key is not a reference
		if ch.P(1, 3) {
			return sessName(ch)
		}
		return k
	}
	val := func(r *sessRule) {
		ref := func() {
			n := sessName(ch)
			r.refs[n] = append(r.refs[n], sb.Len())
			sb.WriteString(n)
		}
		switch ch.Weighted(4, 2, 2, 2, 2, 1, 1) {
		case 6:
			if ch.P(1, 2) {
				ref()
				sb.WriteString(" .. 9")
				break
			}
			sb.WriteString([]string{"1 .. ", "1.5 ... "}[ch.N(2)])
			r.bounds = append(r.bounds, sb.Len())
			ref()
		case 0:
			sb.WriteString([]string{"int", "tstr", "bool", "uint", "bytes", "5", "1.5", "\"text\"", "true"}[ch.N(9)])
		case 1:
			ref()
		case 2:
			sb.WriteString("[ " + key("a") + ": ")
			ref()
			sb.WriteString(", b: int ]")
		case 3:
			sb.WriteString("( " + key("x") + ": tstr, ? " + key("y") + ": ")
			ref()
			sb.WriteString(" )")
		case 4:
			sb.WriteString("int / ")
			ref()
		case 5:
			sb.WriteString("{ " + key("k") + ": ")
			ref()
			sb.WriteString(" }")
		}
	}
	n := 1 + ch.LogN(4)
	if ch.P(1, 10) {
		sb.WriteString("; remark\n")
	} else if ch.P(1, 20) {
		sb.WriteString("; dam\xffged\xc3\n")
		in.remark = sb.Len()
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteString([]string{"\n", "\n\n", " "}[ch.Weighted(4, 1, 1)])
		}
		r := sessRule{nameOff: sb.Len(), refs: map[string][]int{}, assign: []string{"=", "/=", "//="}[ch.Weighted(10, 1, 1)]}
		// bias towards a fresh name
		r.name = sessName(ch)
		if known[r.name] && ch.P(2, 3) {
			r.name = sessName(ch)
		}
		sb.WriteString(r.name + " " + r.assign + " ")
		val(&r)
		in.rules = append(in.rules, r)
	}
	in.kind = "rules"
	if ch.P(1, 30) { // many at once
		start, m := ch.N(300), 20+ch.N(120)
		if ch.P(1, 20) {
			m = 200 + ch.LogN(5000)
		}
		for i := 0; i < m; i++ {
			sb.WriteString("\n")
			nm := fmt.Sprintf("bulk%d", start+i)
			in.rules = append(in.rules, sessRule{name: nm, nameOff: sb.Len(), assign: "="})
			in.names = append(in.names, nm)
			sb.WriteString(nm + " = " + []string{"int", "tstr", "5"}[ch.N(3)])
		}
	}
	switch ch.Weighted(6, 2, 2) {
	case 1:
		in.kind = "broken-end"
		in.broken = true
		if ch.P(1, 4) {
			sb.WriteString("\n" + []string{"- ", ")", "5", "\"cut off", "=", "\xff"}[ch.N(6)])
			break
		}
		in.bname = sessName(ch)
		sb.WriteString("\n" + in.bname + " = " + []string{"[ int", "( a: int", "{ k: tstr", "", "[ int )", "( a: int ]", "[ a: , ]", "&", "\"cut off", "[ \xff"}[ch.N(10)])
	case 2:
		in.kind = "damaged"
		in.wild = in.names == nil
	}
	in.text = sb.String()
	if in.wild {
		in.text, _, _ = damage(ch, in.text, "")
	}
	return in
}

func c14(c *Ctx) {
	ch := c.Ch
	sessions := 1 + ch.N(2)
	steps := 2 + ch.LogN(8)
	if c.Deep {
		steps += ch.N(24)
	}
	if ch.P(1, 500) { // a long day
		steps = 100 + ch.LogN(1000)
		c.probe("long-session")
	}
	type sess struct {
		env   *environment.Environment
		known map[string]bool
		want  map[string]string
		node  map[string]ast.Node
		ins   []*sessInput
	}
	var ss []*sess
	c.solo(1<<30, func() {
		for i := 0; i < sessions; i++ {
			ss = append(ss, &sess{env: environment.NewEnvironment(), known: map[string]bool{}, want: map[string]string{}, node: map[string]ast.Node{}})
		}
	})
	for st := 0; st < steps; st++ {
		size := 2000
		var ins []*sessInput
		trees := make([]*ast.CDDL, sessions)
		diags := make([][]Diag, sessions)
		var fns []func()
		for i, s := range ss {
			in := genInput(ch, s.known)
			ins = append(ins, in)
			size += len(in.text)
			c.desc("session %d, input %d (%s): %s", i, st, in.kind, short(in.text))
			c.fault("input-" + in.kind)
			c.shape(in.kind, len(in.rules))
			fns = append(fns, func() {
				t, el := parseSrc([]byte(in.text), s.env)
				trees[i], diags[i] = t, diagsOf(el)
			})
		}
		mode, sw, gap := verifsim.SwitchNone, 32, 256
		if sessions > 1 {
			mode = verifsim.SwitchStmt
			if ch.P(1, 2) {
				sw, gap = -1000, []int{4, 32, 256}[ch.N(3)]
			}
		}
		ts := c.libRun(mode, sw, gap, stepBound(size), fns...)
		for i, s := range ss {
			in := ins[i]
			if ts[i].Panic != nil || ts[i].Hung {
				if in.wild {
					c.skip("front end crashes (C09)")
				}
				c.libCrashed(ts[i], "parsing a session input", in.text)
			}
			c.checkSession(i, st, in, s.env, s.known, s.want, s.node, trees[i], diags[i])
		}
	}
}

func (c *Ctx) checkSession(si, st int, in *sessInput, env *environment.Environment, known map[string]bool, want map[string]string, node map[string]ast.Node, tree *ast.CDDL, ds []Diag) {
	where := fmt.Sprintf("session %d, input %d %q", si, st, in.text)
	// bindings made before stay
	for _, n := range sortedKeys(known) {
		if !known[n] {
			continue
		}
		if !env.Exists(n) {
			c.fail("definition-lost", "%s: %s was defined before and is not any more", where, n)
		}
		if got := env.Get(n); dump(got) != want[n] {
			c.fail("definition-changed", "%s: the value of %s changed: %s", where, n, firstDiff(want[n], dump(got)))
		}
	}
	adopt := func(n string) {
		known[n] = true
		node[n] = env.Get(n)
		want[n] = dump(node[n])
	}
	if in.wild {
		for _, n := range sessNames {
			if !known[n] && env.Exists(n) {
				adopt(n)
			}
		}
		return
	}
	expect := map[int]string{} // offsets of expected diagnostics
	defined := map[string]bool{}
	for n := range known {
		defined[n] = known[n]
	}
	first := map[string]int{}
	for ri, r := range in.rules {
		if r.assign != "=" {
			continue
		}
		if defined[r.name] {
			expect[r.nameOff] = "existing declaration of " + r.name
			c.probe("redefinition")
		} else {
			defined[r.name] = true
			first[r.name] = ri
		}
	}
	for _, r := range in.rules {
		for _, n := range sortedKeys(r.refs) {
			if !defined[n] {
				if n[0] == '$' { // a socket may be left without a plug
					continue
				}
				for _, o := range r.refs[n] {
					expect[o] = "reference to undefined " + n
					c.probe("undefined-reference")
				}
			}
		}
	}
	allowed := map[int]bool{}
	for _, r := range in.rules {
		for _, o := range r.bounds {
			allowed[o] = true
		}
	}
	got := map[int]string{}
	for _, d := range ds {
		if o := d.Start.Offset; o <= len(in.text) && o >= 0 && expect[o] != "" {
			line, col := 1+strings.Count(in.text[:o], "\n"), o-strings.LastIndexByte(in.text[:o], '\n')
			if d.Start.Line != line || d.Start.Column != col {
				continue
			}
		}
		got[d.Start.Offset] = d.Msg
	}
	for o, w := range expect {
		if got[o] == "" {
			c.fail("conflict-not-diagnosed", "%s: expected a diagnostic at byte %d (%s), got\n%s", where, o, w, diagString(ds))
		}
	}
	lastEnd := len(in.text)
	if in.remark > 0 {
		some := false
		for o := range got {
			some = some || o < in.remark
		}
		if !some {
			c.fail("broken-input-not-diagnosed", "%s: no diagnostic for the invalid UTF-8 in the remark, got\n%s", where, diagString(ds))
		}
	}
	if in.broken {
		lastEnd = strings.LastIndex(in.text, "\n")
		if len(ds) <= len(expect) && len(got) <= len(expect) {
			c.fail("broken-input-not-diagnosed", "%s: no diagnostic for the rule that does not parse, got\n%s", where, diagString(ds))
		}
	}
	for o, m := range got {
		if expect[o] == "" && !allowed[o] && o >= in.remark && o < lastEnd {
			c.fail("unexpected-diagnostic", "%s: %q at offset %d; all names are defined and the rules are complete", where, m, o)
		}
	}
	// bindings
	for _, n := range append(append([]string(nil), sessNames...), in.names...) {
		if known[n] {
			continue
		}
		ri, def := first[n]
		if def != env.Exists(n) {
			if def {
				c.fail("not-defined", "%s: %s has a complete rule but is not defined", where, n)
			}
			c.fail("defined-by-broken-rule", "%s: %s is defined although no complete `=` rule for it was given", where, n)
		}
		if !def {
			continue
		}
		// the value is that of the first rule for the name
		k := -1
		var val ast.Node
		for _, e := range tree.Rules {
			if x, ok := e.(*ast.Rule); ok {
				k++
				if k == ri {
					if x.Name == nil || x.Name.Name != n {
						c.fail("rules-wrong", "%s: rule %d of the tree is not the one for %s", where, ri, n)
					}
					val = x.Value
				}
			}
		}
		if val == nil || dump(val) != dump(env.Get(n)) {
			c.fail("wrong-value", "%s: %s is not bound to the value of its first rule: %s", where, n, firstDiff(dump(val), dump(env.Get(n))))
		}
		adopt(n)
	}
}

// ---- C16: flushing ----

type faultyWriter struct {
	got    []byte
	failAt int // fails once that many bytes were accepted; -1 never
	err    error
	failed bool
	writes int
	failW  int // fails at that write whatever the bytes; -1 never
	once   bool
}

func (w *faultyWriter) Write(b []byte) (int, error) {
	w.writes++
	if w.once && w.failed { // it has recovered
		w.got = append(w.got, b...)
		return len(b), nil
	}
	if w.failW >= 0 && w.writes > w.failW {
		w.failed = true
		return 0, w.err
	}
	if w.failAt >= 0 && len(w.got)+len(b) > w.failAt {
		n := w.failAt - len(w.got)
		if n < 0 {
			n = 0
		}
		w.got = append(w.got, b[:n]...)
		w.failed = true
		return n, w.err
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

// ableWriter is a faultyWriter that can do more than write, as files, buffers
// and connections can.
type ableWriter struct {
	*faultyWriter
	closed   bool
	flushErr bool
}

func (w *ableWriter) Write(b []byte) (int, error) {
	if w.closed {
		w.failed = true
		return 0, os.ErrClosed
	}
	return w.faultyWriter.Write(b)
}

func (w *ableWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w *ableWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w *ableWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b := make([]byte, 700)
	for {
		k, rerr := r.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

func (w *ableWriter) Flush() error { return w.Sync() }

func (w *ableWriter) Sync() error {
	if w.flushErr {
		w.failed = true
		return w.err
	}
	return nil
}

func (w *ableWriter) Close() error {
	err := w.Sync()
	w.closed = true
	return err
}

var errWriter = errors.New("writer failed")

// what writers fail with
var writerErrs = []error{errWriter, io.ErrShortWrite, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress, os.ErrClosed, os.ErrDeadlineExceeded,
	syscall.ENOSPC, syscall.EPIPE, syscall.EAGAIN, syscall.EINTR, syscall.EBADF, context.Canceled, &os.PathError{Op: "write", Path: "/dev/full", Err: syscall.ENOSPC}}

func c16(c *Ctx) {
	ch := c.Ch
	n := 1 + ch.N(3)
	var trees []*ast.CDDL
	var full []string
	var pkgs []string
	for i := 0; i < n; i++ {
		s := genSource(ch, genOpts{comments: true, rules: 1 + ch.LogN(5)})
		if ch.P(1, 600) {
			s.bulk(ch, false)
			c.probe("large-output")
		}
		pkg := []string{"lib", "models", ""}[ch.N(3)]
		var tree *ast.CDDL
		code := ""
		t := c.solo(stepBound(len(s.Text))*4, func() {
			var el parser.ErrorList
			tree, el = parseSrc([]byte(s.Text), nil)
			if len(el) == 0 && tree != nil {
				code = genCode(pkg, tree)
			}
		})
		if t.Panic != nil || t.Hung || code == "" {
			c.skip("source not generated")
		}
		if strings.HasPrefix(code, "panic:") {
			c.fail("flush-panics", "generating and flushing panicked: %s\nsource:\n%s", code, s.Text)
		}
		if strings.HasPrefix(code, "error:") {
			if pkg == "" {
				c.skip("no package name")
			}
			c.fail("flush-fails", "flushing to a writer that does not fail returns %s\nsource:\n%s", code, s.Text)
		}
		trees, full, pkgs = append(trees, tree), append(full, code), append(pkgs, pkg)
		c.desc("generator %d: %d bytes of code from %s", i, len(code), short(s.Text))
	}
	type op struct {
		g, at, w int
		once     bool
		fresh    int // first generate that tree with a new generator; -1 no
		err      error
		able     bool // the writer can do more than write
		again    bool // to the writer of the flush before
		grow     int  // the generator is given that tree as well, first; -1 no
	}
	var ops []op
	m := 2 + ch.LogN(8)
	for i := 0; i < m; i++ {
		o := op{g: ch.N(n), at: -1, w: -1, fresh: -1, grow: -1}
		o.able = ch.P(1, 3)
		o.again = i > 0 && ch.P(1, 4)
		if ch.P(1, 3) {
			o.fresh = ch.N(n)
		}
		switch ch.Weighted(3, 4, 1) {
		case 1:
			o.at = ch.N(len(full[o.g]) + 1)
			if ch.P(1, 4) {
				o.at = []int{0, 1, len(full[o.g]) - 1, len(full[o.g])}[ch.N(4)]
			}
		case 2:
			o.w = ch.N(3)
		}
		o.once = ch.P(1, 3)
		o.err = writerErrs[ch.N(len(writerErrs))]
		ops = append(ops, o)
	}
	// a generator that is given more rules after a flush
	grown := map[int]string{} // by flush
	cur := map[int][]int{}
	for i := range ops {
		o := &ops[i]
		if cur[o.g] == nil {
			cur[o.g] = []int{o.g}
		}
		if i > 0 && ch.P(1, 8) {
			o.grow = ch.N(n)
			cur[o.g] = append(append([]int(nil), cur[o.g]...), o.grow)
		}
		if l := cur[o.g]; len(l) > 1 {
			var all []*ast.CDDL
			for _, x := range l {
				all = append(all, trees[x])
			}
			code := ""
			t := c.solo(1<<28, func() { code = genCode(pkgs[o.g], all...) })
			if t.Panic != nil || t.Hung || strings.HasPrefix(code, "panic:") || strings.HasPrefix(code, "error:") {
				c.skip("source not generated")
			}
			grown[i] = code
			c.probe("generator-given-more-after-a-flush")
		}
	}
	type out struct {
		w        *faultyWriter
		err      error
		from, to int
		closed   bool
	}
	outs := make([]out, m)
	between := map[int]string{}
	t := c.solo(1<<28, func() {
		gs := make([]*gogen.Generator, n)
		for i := range gs {
			gs[i] = gogen.NewGenerator(pkgs[i])
			gs[i].Visit(trees[i])
		}
		for i, o := range ops {
			if o.fresh >= 0 {
				between[i] = genCode(pkgs[o.fresh], trees[o.fresh])
			}
			if o.grow >= 0 {
				gs[o.g].Visit(trees[o.grow])
			}
			w := &faultyWriter{failAt: o.at, failW: o.w, err: o.err, once: o.once}
			if o.again {
				p := outs[i-1].w
				*w = faultyWriter{got: p.got, writes: p.writes, failAt: o.at, failW: o.w, err: o.err, once: o.once}
				if o.at >= 0 {
					w.failAt += len(p.got)
				}
				if o.w >= 0 {
					w.failW += p.writes
				}
			}
			from := len(w.got)
			var err error
			closed := false
			if o.able {
				a := &ableWriter{faultyWriter: w, flushErr: o.at >= 0 && o.at%3 == 0}
				err = gs[o.g].String(a)
				closed = a.closed
			} else {
				err = gs[o.g].String(w)
			}
			outs[i] = out{w, err, from, len(w.got), closed}
		}
	})
	c.libCrashed(t, "flushing", "")
	for i, o := range ops {
		r := outs[i]
		got, want := string(r.w.got[r.from:r.to]), full[o.g]
		if g, ok := grown[i]; ok {
			want = g
		}
		if r.closed {
			c.fail("writer-closed", "flush %d of %d closes the writer it was given, which cannot be written to again", i, m)
		}
		c.shape(o.g, o.at >= 0, o.w, r.w.failed)
		if r.w.failed {
			c.fault("writer-failed")
			if len(got) > 0 {
				c.fault("writer-accepted-a-part")
			}
		}
		if o.fresh >= 0 && between[i] != full[o.fresh] {
			c.fail("flush-differs", "before flush %d of %d: a new generator for the same tree gives other code: %s", i, m, firstDiff(full[o.fresh], between[i]))
		}
		where := fmt.Sprintf("flush %d of %d (generator %d, failing after byte %d or write %d with %q)", i, m, o.g, o.at, o.w, o.err)
		if r.w.failed && r.err == nil {
			c.fail("write-error-lost", "%s: the writer failed, but the flush returns nil", where)
		}
		if !strings.HasPrefix(want, got) {
			c.fail("flush-differs", "%s: the bytes accepted are no prefix of the complete output: %s", where, firstDiff(want, got))
		}
		if !r.w.failed && r.err != nil {
			c.fail("flush-fails", "%s: the writer accepted everything, but the flush returns %v", where, r.err)
		}
		if r.err == nil && got != want {
			c.fail("flush-incomplete", "%s: returned nil after %d of %d bytes", where, len(got), len(want))
		}
	}
}
