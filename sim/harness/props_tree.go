//go:build go1.22

package verifharness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/bits"
	"strings"

	"MODULE/ast"
	"MODULE/ast/astutils"
	"MODULE/environment"
	"MODULE/internal/verifsim"
	gogen "MODULE/transforms/codegen/golang"
)

func init() {
	props["C27"] = c27
}

// ---- C27: a parsed tree can be read by many ----

// placer notes where every node of a tree begins and ends.
type placer struct{ sb *strings.Builder }

func (w placer) Visit(n ast.Node) astutils.Visitor {
	if n != nil {
		fmt.Fprintf(w.sb, "%T", n)
		func() {
			defer func() {
				if recover() != nil {
					w.sb.WriteString(" no place")
				}
			}()
			a, b := n.Start(), n.End()
			fmt.Fprintf(w.sb, " %d:%d@%d-%d:%d@%d", a.Line, a.Column, a.Offset, b.Line, b.Column, b.Offset)
		}()
		w.sb.WriteByte('\n')
	}
	return w
}

// parsed is a tree with what belongs to it.
type parsed struct {
	text string
	code bool
	tree *ast.CDDL
	env  *environment.Environment
}

func parseFor(text string, code bool) *parsed {
	e := environment.NewEnvironment()
	t, _ := parseSrc([]byte(text), e)
	return &parsed{text, code, t, e}
}

var readings = []string{"walk", "format", "serialise", "places", "generate", "generate-rules", "generate-all", "environment", "look"}

// read is one reading; arg selects a rule.
func read(kind, pkg string, arg int, ps []*parsed, at int) (out string) {
	p := ps[at]
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v", e)
		}
		out = noAddrs(out)
	}()
	rules := p.tree.Rules
	switch kind {
	case "walk":
		return walkTree(p.tree)
	case "format":
		for _, x := range rules {
			out += formatTree(x) + "\n"
			if ru, ok := x.(*ast.Rule); ok && ru.Value != nil {
				out += formatTree(ru.Value) + "\n"
			}
		}
		return out
	case "serialise":
		b, err := json.MarshalIndent(p.tree, "", " ")
		return fmt.Sprint(string(b), err)
	case "places":
		w := placer{&strings.Builder{}}
		defer func() {
			if e := recover(); e != nil {
				out = w.sb.String() + fmt.Sprintf(" panic: %v", e)
			}
		}()
		astutils.Walk(w, p.tree)
		return w.sb.String()
	case "generate":
		return genCode(pkg, p.tree)
	case "generate-rules": // the rules one by one, from arg on
		g := gogen.NewGenerator(pkg)
		for i := range rules {
			g.Visit(rules[(i+arg)%len(rules)])
		}
		var b bytes.Buffer
		err := g.String(&b)
		return fmt.Sprint(b.String(), err)
	case "generate-all":
		var ts []*ast.CDDL
		for i := range ps {
			ts = append(ts, ps[(i+arg)%len(ps)].tree)
		}
		return genCode(pkg, ts...)
	case "environment":
		for _, n := range ruleNames(p.tree) {
			out += fmt.Sprintln(n, p.env.Exists(n), dump(p.env.Get(n)))
		}
		return out + fmt.Sprint(p.env.Exists("no such name"))
	case "look":
		return dump(p.tree)
	}
	bug("no reading %s", kind)
	return
}

func c27(c *Ctx) {
	ch := c.Ch
	nt := 1 + ch.N(2)
	mk := func() []*parsed { return nil }
	var texts []string
	var codes []bool
	size := 0
	for i := 0; i < nt; i++ {
		full := ch.P(1, 3)
		s := genSource(ch, genOpts{full: full, comments: true, rules: 1 + ch.LogN(6)})
		t := s.Text
		if ch.P(1, 8) {
			t, _, _ = damage(ch, t, "")
			full = true
			c.fault("damaged-source")
		}
		if ch.P(1, 5) { // wide or deep
			m := 2 + ch.LogN(60)
			k := ch.N(4)
			if k == 3 {
				full = true
			}
			t += "\nbig = "
			switch k {
			case 0, 1:
				t += []string{"( ", "[ "}[k]
				for j := 0; j < m; j++ {
					t += fmt.Sprintf("%sm%d: int", []string{"", ", "}[b2i(j > 0)], j)
				}
				t += []string{" )", " ]"}[k]
			case 2:
				t += strings.Repeat("[ a: ", m) + "int" + strings.Repeat(" ]", m)
			case 3:
				t += "int" + strings.Repeat(" / tstr / uint", m)
			}
			t += "\n"
		}
		texts, codes = append(texts, t), append(codes, !full)
		size += len(t)
		c.desc("tree %d: %s", i, short(t))
	}
	mk = func() (ps []*parsed) {
		for i, t := range texts {
			ps = append(ps, parseFor(t, codes[i]))
		}
		return
	}
	type reading struct {
		kind, pkg string
		arg, at   int
		want, got string
	}
	n := 1 + ch.Weighted(2, 4, 2, 1)
	calls := make([][]*reading, n)
	var all []*reading
	for i := range calls {
		for m := 1 + ch.LogN(5); m > 0; m-- {
			r := &reading{kind: readings[ch.Weighted(4, 4, 3, 3, 6, 3, 2, 2, 3)], pkg: []string{"alpha", "beta", "gamma", "delta"}[i], arg: ch.N(8), at: ch.N(nt)}
			calls[i] = append(calls[i], r)
			all = append(all, r)
		}
	}
	limit := stepBound(size) * 8
	for _, r := range all { // alone, on trees of its own
		t := c.solo(limit, func() { r.want = read(r.kind, r.pkg, r.arg, mk(), r.at) })
		if t.Hung || t.Panic != nil {
			c.skip("front end crashes alone (C09)")
		}
	}
	var ps []*parsed
	var before []string
	t := c.solo(limit, func() {
		ps = mk()
		for _, p := range ps {
			before = append(before, dump(p.tree))
		}
	})
	if t.Hung || t.Panic != nil {
		c.skip("front end crashes alone (C09)")
	}
	var fns []func()
	for i := range calls {
		fns = append(fns, func() {
			for _, r := range calls[i] {
				r.got = read(r.kind, r.pkg, r.arg, ps, r.at)
			}
		})
	}
	gap := []int{16, 64, 256, 1024}[ch.N(4)]
	sw := []int{8, 64, 400}[ch.N(3)]
	if ch.P(2, 3) {
		gap = []int{2, 8, 32, 256}[ch.N(4)]
		sw = -[]int{100, 1000, 5000}[ch.N(3)]
	}
	was := c.St.Switches
	ts := c.libRun(verifsim.SwitchStmt, sw, gap, limit*8, fns...)
	if c.St.Switches > was {
		c.fault("preemption")
		c.St.Faults["preemption"] += c.St.Switches - was - 1
	}
	c.shape(n, nt, gap, bits.Len(uint(c.St.Switches-was)), bits.Len(uint(size)))
	for i, t := range ts {
		c.libCrashed(t, fmt.Sprintf("caller %d of %d reading one tree", i, n), texts[0])
	}
	for i := range calls {
		for x, r := range calls[i] {
			c.shape(r.kind)
			if r.want != r.got {
				c.fail("reading-differs", "call %d of caller %d (%s of tree %d) gives another answer than on a tree of its own: %s\nits source:\n%s", x, i, r.kind, r.at, firstDiff(r.want, r.got), texts[r.at])
			}
		}
	}
	for i, p := range ps {
		if now := dump(p.tree); now != before[i] {
			var kinds []string
			for _, r := range all {
				kinds = append(kinds, r.kind)
			}
			c.fail("tree-changed", "tree %d is not what it was after %v: %s\nits source:\n%s", i, kinds, firstDiff(before[i], now), texts[i])
		}
	}
}
