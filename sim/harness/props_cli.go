//go:build go1.22

package verifharness

import (
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"strings"
	"syscall"

	"MODULE/environment"
	"MODULE/internal/verifsim"
)

func init() {
	props["C15"] = c15
	props["C17"] = c17
	props["C21"] = c21
	props["C24"] = c24
}

// ---- C15: the REPL ----

var columnRe = regexp.MustCompile(`column \d+`)
var addrRe = regexp.MustCompile(`0x[0-9a-f]{8,}`)

func noColumns(s string) string { return columnRe.ReplaceAllString(s, "column") }

// noAddrs hides heap addresses, which a diagnostic may quote.
func noAddrs(s string) string { return addrRe.ReplaceAllString(s, "0x") }

type replLine struct {
	text string // without line end
	kind string // rule, broken, damaged, command, blank, long
}

func genReplLine(ch *verifsim.Chooser, known map[string]bool, deep bool) replLine {
	switch ch.Weighted(8, 3, 3, 5, 1, 1) {
	case 0:
		in := genInput(ch, known)
		t := strings.ReplaceAll(strings.ReplaceAll(in.text, "; remark\n", ""), "\n", " ")
		kind := "rule"
		if in.broken {
			kind = "broken"
		}
		if in.wild {
			kind = "damaged"
		}
		if strings.TrimSpace(t) != "" && ch.P(1, 8) { // a command counts at the start of a line only
			t += []string{" ; :exit", " ; :pv", " :exit", " :pv", " ;:help", " :tree aa"}[ch.N(6)]
			kind = "command-inside"
		} else if ch.P(1, 20) {
			t = []string{"; :exit", "\":exit\"", "a:exit", "exit", "pv", "help", "quit", "!!", "!aa", "^aa^bb", "clear", "history", "?", "\x1b[A", "# c", "// c", "q", "\x04", "\x03", ".exit", "/exit", "EOF", "exit()", "aa", "-- c", "\\", "aa = \\"}[ch.N(26)]
			kind = "command-inside"
		}
		return replLine{t, kind}
	case 1:
		s := genSource(ch, genOpts{full: true, rules: 1 + ch.N(2)})
		t, _, _ := damage(ch, strings.ReplaceAll(s.Text, "\n", " "), "")
		return replLine{strings.ReplaceAll(t, "\n", " "), "damaged"}
	case 2:
		b := make([]byte, ch.LogN(40))
		for i := range b {
			b[i] = byte(ch.N(256))
			if b[i] == '\n' {
				b[i] = 0
			}
		}
		return replLine{string(b), "garbage"}
	case 3:
		n := sessName(ch)
		if ch.P(1, 12) { // many names
			t := ":tree"
			for i := 2 + ch.LogN(60); i >= 0; i-- {
				t += " " + sessName(ch)
			}
			return replLine{t, "command"}
		}
		return replLine{[]string{":pv", ":pv", ":tree " + n, ":tree " + n, ":help", ":tree", ":tree  " + n + " nosuch", "  :pv", ":", ":unknown", ":q", ":quit", ":clear", ":reset", ":Exit", ":EXIT", ":ex", ":history", ":!", "::pv", ": pv", ":lex", ":load keep.cddl", ":save x", ":! touch y"}[ch.N(25)], "command"}
	case 4:
		return replLine{[]string{"", " ", "\t", "\r"}[ch.N(4)], "blank"}
	default:
		n := 60000 + ch.N(12000)
		if deep && ch.P(1, 3) {
			n *= 1 + ch.N(6)
		}
		name := sessName(ch)
		if ch.P(1, 50) { // longer than any buffer
			n = 1<<20 + ch.LogN(3<<20)
			return replLine{name + " = int ; " + strings.Repeat("c", n), "very-long"}
		}
		if ch.P(1, 20) {
			unit := junkUnits[ch.N(len(junkUnits))]
			t := strings.ReplaceAll(strings.Repeat(unit, n/10), "\n", " ")
			if ch.P(1, 2) {
				t = name + " = " + t
			}
			return replLine{t, "long"}
		}
		if ch.P(1, 2) {
			return replLine{name + " = int ; " + strings.Repeat("c", n), "long"}
		}
		return replLine{name + " = tstr" + strings.Repeat(" ", n), "long"}
	}
}

func c15(c *Ctx) {
	ch := c.Ch
	var lines []replLine
	n := 1 + ch.LogN(10)
	if c.Deep {
		n += ch.N(12)
	}
	if ch.P(1, 200) { // a long day
		n = 100 + ch.LogN(1000)
		c.probe("long-session")
	}
	known := map[string]bool{}
	long := false
	for i := 0; i < n; i++ {
		l := genReplLine(ch, known, c.Deep)
		if l.kind == "long" || l.kind == "very-long" {
			if long {
				l = replLine{":pv", "command"}
			}
			long = true
		}
		if strings.Contains(l.text, ">>>") {
			l = replLine{"aa = int", "rule"}
		}
		lines = append(lines, l)
		c.fault("line-" + l.kind)
	}
	ending := []string{"exit", "eof", "error", "partial", "exit-and-more"}[ch.Weighted(3, 2, 2, 1, 1)]
	sep := "\n"
	if ch.P(1, 6) {
		sep = "\r\n"
	}
	var sb strings.Builder
	for _, l := range lines {
		sb.WriteString(l.text + sep)
	}
	switch ending {
	case "exit":
		sb.WriteString(":exit" + sep)
	case "exit-and-more":
		sb.WriteString(":exit" + sep + "after = int" + sep + "after = int" + sep)
	case "partial":
		sb.WriteString("last = in")
	}
	stream := sb.String()
	lexFlag := ch.P(1, 4)
	args := []string{"cddlc", "qrepl"}
	if lexFlag {
		args = append(args, "--lex")
	}
	mk := func(stdin [][]byte, noisy bool) *verifsim.Proc {
		k := verifsim.NewKernel(c.newSim())
		k.FS.MkdirAll("/w")
		k.FS.MkdirAll("/tmp")
		k.FS.Put("/w/keep.cddl", []byte("x = int\n"))
		before := k.FS.Snapshot()
		q := k.NewProc("repl", "/w", args...)
		q.Stdin = stdin
		if ending == "error" {
			q.StdinErr = syscall.EIO
		}
		if noisy {
			q.Noise = ch.Seed()
			q.NoiseDen = []int{2, 3, 6}[ch.N(3)]
		}
		c.metered(len(stream), "the session", func() { c.run(k, verifsim.SwitchNone, q) })
		c.crashed(q, false)
		now := k.FS.Snapshot()
		c.unchanged(before, now, "after the session")
		for _, f := range newFiles(before, now) {
			c.fail("session-writes-files", "the session created %s", f)
		}
		return q
	}
	ref := mk([][]byte{[]byte(stream)}, false)
	c.desc("session of %d lines ending with %s, lex=%v: %s", n, ending, lexFlag, short(stream))
	status := func(q *verifsim.Proc, how string) {
		if strings.HasPrefix(ending, "exit") != q.OK() {
			c.fail("wrong-status", "%s: the session ends with %s, its input with %s\n%s", how, q.Status(), ending, tailOf(string(q.Stderr)))
		}
	}
	status(ref, "input in one piece")
	// the same bytes, split and delayed in other ways
	for i := 0; i < 2; i++ {
		var parts [][]byte
		rest := []byte(stream)
		style := ch.N(4)
		for len(rest) > 0 {
			m := len(rest)
			switch style {
			case 0:
				m = 1 + ch.LogN(200)
			case 1:
				m = 1
				if len(stream) > 4000 {
					m = 1 + len(stream)/500
				}
			case 2: // whole lines
				m = strings.IndexByte(string(rest), '\n') + 1
				if m == 0 {
					m = len(rest)
				}
			case 3: // splits right around line ends
				j := strings.IndexByte(string(rest), '\n')
				m = j + ch.N(3)
			}
			if m < 1 {
				m = 1
			}
			if m > len(rest) {
				m = len(rest)
			}
			parts = append(parts, append([]byte(nil), rest[:m]...))
			rest = rest[m:]
			if len(parts) > 2000 {
				parts = append(parts, append([]byte(nil), rest...))
				break
			}
		}
		c.fault("input-split")
		c.shape(style, len(parts))
		q := mk(parts, ch.P(2, 3))
		how := fmt.Sprintf("input in %d pieces", len(parts))
		status(q, how)
		if a, b := noAddrs(string(ref.Stdout)), noAddrs(string(q.Stdout)); a != b {
			c.fail("depends-on-chunking", "%s: the output differs from that for the input in one piece: %s", how, firstDiff(a, b))
		}
	}
	c.shape(ending, lexFlag)
	// what each line did
	seg := strings.Split(noAddrs(string(ref.Stdout)), ">>>")
	wantSeg := n + 2 // before the first prompt, one for each line, one for the end
	if ending == "partial" {
		if len(seg) != wantSeg && len(seg) != wantSeg+1 {
			c.fail("lines-not-executed", "%d prompts for %d complete lines\n%s", len(seg)-1, n, short(stream))
		}
	} else if len(seg) != wantSeg {
		c.fail("lines-not-executed", "%d prompts for %d complete lines and the end of the session\nlines: %s\noutput: %s", len(seg)-1, n, short(stream), tailOf(noAddrs(string(ref.Stdout))))
	}
	// the model
	type res struct {
		diags []string
		rules []string
		toks  int
		known map[string]bool
		bad   bool
	}
	out := make([]res, n)
	t := c.solo(stepBound(len(stream))*2, func() {
		env := environment.NewEnvironment()
		for i, l := range lines {
			cmd := strings.TrimSpace(l.text)
			if strings.HasPrefix(cmd, ":help") || strings.HasPrefix(cmd, ":pv") || strings.HasPrefix(cmd, ":tree") || strings.HasPrefix(cmd, ":exit") {
				out[i].known = map[string]bool{}
				for _, nm := range sessNames {
					out[i].known[nm] = env.Exists(nm)
				}
				continue
			}
			ts, _ := lexAll([]byte(l.text), len(l.text)+2)
			out[i].toks = len(ts)
			tree, el := parseSrc([]byte(l.text), env)
			for _, d := range diagsOf(el) {
				out[i].diags = append(out[i].diags, d.Msg)
			}
			if tree != nil {
				out[i].rules = ruleNames(tree)
			}
		}
	})
	if t.Panic != nil || t.Hung {
		c.skip("front end crashes (C09)")
	}
	pv := false
	for i, l := range lines {
		s := strings.TrimSpace(seg[i+1])
		cmd := strings.TrimSpace(l.text)
		where := fmt.Sprintf("line %d %s", i+1, short(l.text))
		switch {
		case strings.HasPrefix(cmd, ":help"):
			if s == "" {
				c.fail("command-ignored", "%s printed nothing", where)
			}
		case strings.HasPrefix(cmd, ":pv"):
			pv = !pv
			if s != "" {
				c.fail("unexpected-output", "%s printed %s", where, short(s))
			}
		case strings.HasPrefix(cmd, ":tree"):
			some := false
			for _, a := range strings.Fields(cmd)[1:] {
				if out[i].known[a] {
					some = true
					if !strings.Contains(s, a) {
						c.fail("definition-lost", "%s: %s is defined, but the output is %s", where, a, short(s))
					}
				}
			}
			if !some && s != "" {
				c.fail("undefined-name-shown", "%s: the names are not defined, but the output is %s", where, short(s))
			}
		default:
			sc := noColumns(s)
			for _, d := range out[i].diags {
				// columns may count from the start of the trimmed line
				if !strings.Contains(sc, strings.TrimSpace(noColumns(d))) {
					c.fail("diagnostic-not-shown", "%s: %q is missing in the output %s", where, d, short(s))
				}
			}
			if len(out[i].diags) == 0 && !pv && !lexFlag && s != "" {
				c.fail("unexpected-output", "%s has no error, but printed %s", where, short(s))
			}
			if pv {
				for _, r := range out[i].rules {
					if !strings.Contains(s, r) {
						c.fail("rule-not-shown", "%s: with :pv on, rule %s is missing in the output %s", where, r, short(s))
					}
				}
			} else if !lexFlag && len(out[i].diags) > 0 && strings.Count(s, "\n")+1 > len(out[i].diags)+strings.Count(strings.Join(out[i].diags, ""), "\n") {
				c.fail("unexpected-output", "%s: %d diagnostics, but the output is %s", where, len(out[i].diags), short(s))
			}
			if lexFlag && strings.Count(s, "\n")+1 < out[i].toks {
				c.fail("tokens-not-shown", "%s: %d tokens, but the output has %d lines", where, out[i].toks, strings.Count(s, "\n")+1)
			}
		}
	}
}

// ---- C17: lex and parse ----

func c17(c *Ctx) {
	ch := c.Ch
	o := genOpts{full: ch.P(2, 3), comments: ch.P(2, 3), rules: 1 + ch.LogN(6)}
	if ch.P(1, 8) {
		o.rules = 10 + ch.N(40)
	}
	if ch.P(1, 150) {
		o.rules = 400 + ch.LogN(3000)
	}
	s := genSource(ch, o)
	if len(s.Text) > 1<<16 {
		c.probe("source-over-64-KB")
	}
	text := s.Text
	intact := true
	if ch.P(1, 5) {
		text, _, _ = damage(ch, text, "")
		intact = text == s.Text
	}
	cmd := []string{"lex", "parse"}[ch.N(2)]
	k := project1(c, text)
	if ch.P(1, 12) {
		k.FS.Get("/w/s/x.cddl").Sizeless = true
		c.fault("file-size-not-reported")
	}
	k.FS.Wipe()
	args := []string{"cddlc", cmd, "s/x.cddl"}
	missing := false
	switch ch.Weighted(20, 1, 1, 1, 1) {
	case 1:
		args = args[:2]
		missing = true
	case 2:
		args = append(args, "s/y.cddl")
		missing = true
	case 3:
		args[2] = "s/nosuch.cddl"
		missing = true
	case 4:
		args[2] = "s"
		missing = true
	}
	before := k.FS.Snapshot()
	ref, _ := c.pristine(k.FS, "/w", args...)
	c.crashed(ref, false)
	want := noAddrs(string(ref.Stdout))
	c.desc("%v of %s", args[1:], short(text))
	if missing {
		if ref.OK() {
			c.fail("bad-arguments-accepted", "%v exits 0", args)
		}
	} else if intact {
		if !ref.OK() {
			c.fail("valid-source-refused", "%s of a valid source ends with %s\n%s\n%s", cmd, ref.Status(), tailOf(string(ref.Stderr)), text)
		}
		if cmd == "lex" {
			ls := strings.Split(strings.TrimSuffix(want, "\n"), "\n")
			if len(ls) != len(s.Toks)+1 {
				c.fail("listing-wrong", "%d lines for %d tokens and the end of file\nsource:\n%s", len(ls), len(s.Toks), text)
			}
			for i, t := range s.Toks {
				if !strings.HasSuffix(strings.TrimRight(ls[i], " "), strings.TrimRight(t.Lit, " \r")) && !strings.HasSuffix(ls[i], t.Lit) {
					c.fail("listing-wrong", "line %d is %q for token %q\nsource:\n%s", i+1, ls[i], t.Lit, text)
				}
				if !strings.Contains(ls[i], fmt.Sprint(t.Line)) || !strings.Contains(ls[i], fmt.Sprint(t.Col)) {
					c.fail("listing-wrong", "line %d is %q for token %q at line %d, column %d\nsource:\n%s", i+1, ls[i], t.Lit, t.Line, t.Col, text)
				}
			}
		} else {
			var tree struct {
				Rules []struct{ Name *struct{ Name string } }
			}
			if err := json.Unmarshal([]byte(want), &tree); err != nil {
				c.fail("listing-wrong", "the listing is not JSON: %v\nsource:\n%s", err, text)
			}
			var names []string
			for _, r := range tree.Rules {
				if r.Name != nil {
					names = append(names, r.Name.Name)
				}
			}
			var exp []string
			for _, r := range s.Rules {
				exp = append(exp, r.Name)
			}
			if strings.Join(names, " ") != strings.Join(exp, " ") {
				c.fail("listing-wrong", "rules %v listed as %v\nsource:\n%s", exp, names, text)
			}
		}
	}
	rounds := 2
	if c.Deep {
		rounds = 5
	}
	for i := 0; i < rounds; i++ {
		q := k.NewProc(fmt.Sprintf("%s%d", cmd, i), "/w", args...)
		switch ch.Weighted(3, 4, 2) {
		case 0: // only legal disturbance
			q.Noise = ch.Seed()
			q.NoiseDen = []int{2, 3, 6}[ch.N(3)]
		case 1:
			q.Faults = planFaults(ch, ref.Ops, 2, errorKinds)
			noise(ch, q)
		case 2:
			q.OutFail = ch.N(len(want) + 2)
			if ch.P(1, 4) {
				q.OutFail = len(want) - ch.LogN(4)
				if q.OutFail < 0 {
					q.OutFail = 0
				}
			}
			q.ConErrno = []syscall.Errno{syscall.EIO, syscall.ENOSPC}[ch.N(2)]
			noise(ch, q)
		}
		hits := 0
		k.OnOp = func(_ *verifsim.Proc, what, pth string, e syscall.Errno) {
			if e != 0 && e != syscall.EINTR && strings.HasSuffix(pth, "x.cddl") && (what == "open" || what == "read") {
				hits++
			}
		}
		c.run(k, verifsim.SwitchNone, q)
		k.OnOp = nil
		c.shapeProc(q, ref.Ops)
		c.crashed(q, false)
		where := fmt.Sprintf("%v with faults%s, stdout failing after %d bytes", args[1:], describeFaults(q.Faults), q.OutFail)
		if q.OK() && noAddrs(string(q.Stdout)) != want {
			c.fail("incomplete-listing", "%s exits 0, but the listing is not the complete one: %s", where, firstDiff(want, noAddrs(string(q.Stdout))))
		}
		if q.OutHit && q.OK() {
			c.fail("write-error-lost", "%s: writing failed, but the exit status is 0", where)
		}
		if hits > 0 && q.OK() {
			c.fail("read-error-lost", "%s: opening or reading the source failed, but the exit status is 0", where)
		}
		if q.ErrHits == 0 && !q.OutHit && q.Nofile > 10 && q.Status() != ref.Status() {
			c.fail("noise-changes-status", "%s: no call failed, but the status is %s instead of %s\n%s", where, q.Status(), ref.Status(), tailOf(string(q.Stderr)))
		}
		if q.ErrHits == 0 && !q.OutHit && noAddrs(string(q.Stdout)) != want {
			c.fail("noise-changes-listing", "%s: no call failed, but the listing differs: %s", where, firstDiff(want, noAddrs(string(q.Stdout))))
		}
		now := k.FS.Snapshot()
		c.unchanged(before, now, where)
		for _, f := range newFiles(before, now) {
			c.fail("stray-file", "%s created %s", where, f)
		}
	}
}

// ---- C21: failures are explained ----

func c21(c *Ctx) {
	ch := c.Ch
	kind := []string{"generate", "init", "lex", "parse", "qrepl"}[ch.Weighted(8, 3, 2, 3, 1)]
	var k *verifsim.Kernel
	dir, args := "/w", []string{"cddlc", kind}
	var stdin [][]byte
	type reason struct {
		what  string
		texts []string // all of them
	}
	var known []reason  // other causes of a failure; none of them may be the one
	vague := false      // there is a cause whose text is open
	shown := []string{} // texts to be shown whatever the status
	diags := func(text string) (out []string) {
		t := c.solo(stepBound(len(text)), func() {
			_, el := parseSrc([]byte(text), nil)
			for _, d := range diagsOf(el) {
				out = append(out, d.Msg)
			}
		})
		if t.Hung || t.Panic != nil {
			c.skip("front end crashes (C09)")
		}
		return
	}
	switch kind {
	case "generate":
		o := projOpts{maxBuilds: 2, maxSources: 3, badSource: 10}
		if ch.P(1, 3) { // the generator may refuse such a source, in words of its own
			o.rich, vague = 3, true
		}
		p := newProject(c, o)
		k, dir, args = p.K, p.Dir, p.Args
		for _, f := range sortedKeys(p.Sources) {
			s := p.Sources[f]
			if !s.Bad && ch.P(1, 12) {
				t, _, _ := damage(ch, s.Text, "")
				if n := k.FS.Get(f); n != nil && n.Kind == verifsim.KFile && len(diags(t)) > 0 {
					s.Text, s.Bad = t, true
					k.FS.Put(f, []byte(t))
				}
			}
			if s.Bad {
				known = append(known, reason{f, diags(s.Text)})
			}
		}
		if ch.P(1, 12) && len(p.Builds) > 0 {
			vague = true
			b := p.Builds[ch.N(len(p.Builds))]
			switch ch.N(3) {
			case 0:
				k.FS.Put(p.Dir+"/cddlc.json", []byte([]string{"{", "", "{\"builds\": 7}"}[ch.N(3)]))
			case 1:
				k.FS.Remove(p.Dir + "/cddlc.json")
				k.FS.Put(p.Dir+"/cddlc.json", []byte(jsonConfig([]Build{{"lib", "nosuch", "o"}}, false)))
			case 2:
				if n := k.FS.Get(p.abs(b.Src)); n != nil {
					n.Mode = 0
				}
			}
		}
	case "init":
		k = verifsim.NewKernel(c.newSim())
		k.FS.MkdirAll(dir)
		if ch.P(1, 3) {
			vague = true
			k.FS.Put(dir+"/cddlc.json", []byte("{}"))
		}
	case "lex", "parse":
		s := genSource(ch, genOpts{full: ch.P(1, 2), comments: true, rules: 1 + ch.LogN(5)})
		text := s.Text
		if ch.P(1, 2) {
			text, _, _ = damage(ch, text, "")
		}
		k = project1(c, text)
		args = append(args, "s/x.cddl")
		switch ch.Weighted(9, 1, 1, 1) {
		case 0:
			ds := diags(text)
			if kind == "parse" {
				shown = ds
			}
			if len(ds) > 0 {
				vague = true
			}
		case 1:
			args, vague = args[:2], true
		case 2:
			args[2], vague = "s/nosuch.cddl", true
		case 3:
			args[2], vague = "s", true
		}
	case "qrepl":
		k = verifsim.NewKernel(c.newSim())
		k.FS.MkdirAll(dir)
		vague = true
		for n := ch.N(3); n > 0; n-- {
			stdin = append(stdin, []byte("aa = int\n"))
		}
	}
	k.FS.Wipe()
	ref, _ := c.pristineIn(k.FS, dir, stdin, args...)
	q := k.NewProc(kind, dir, args...)
	q.Stdin = stdin
	if kind == "qrepl" && ch.P(1, 2) {
		q.StdinErr = syscall.EIO
	}
	if ch.P(7, 8) {
		q.Faults = planFaults(ch, ref.Ops, 2, errorKinds)
	}
	if ch.P(1, 12) && kind != "qrepl" {
		q.OutFail = ch.N(len(ref.Stdout) + 2)
		q.ConErrno = []syscall.Errno{syscall.EIO, syscall.ENOSPC}[ch.N(2)]
	}
	noise(ch, q)
	c.run(k, verifsim.SwitchNone, q)
	c.desc("%v, faults%s: %s", args[1:], describeFaults(q.Faults), q.Status())
	c.shape(kind, vague, len(known) > 0)
	c.shapeProc(q, ref.Ops)
	c.crashed(q, kind == "generate")
	if q.Thread.Panic != nil {
		c.skip("panic in code generation")
	}
	said := noAddrs(string(q.Stderr))
	if len(q.Errs) == 0 {
		for _, d := range shown {
			if !strings.Contains(said, strings.TrimSpace(d)) {
				c.fail("diagnostic-not-shown", "%v: %q is not on standard error: %s", args[1:], d, tailOf(said))
			}
		}
	}
	if q.OK() {
		return
	}
	c.probe("failed: " + kind)
	if strings.TrimSpace(said) == "" {
		c.fail("silent-failure", "%v with faults%s: %s, and nothing on standard error", args[1:], describeFaults(q.Faults), q.Status())
	}
	if vague || kind == "qrepl" {
		return
	}
	met := append([]syscall.Errno(nil), q.Errs...)
	if q.OutHit {
		met = append(met, q.ConErrno)
	}
	var names []string
	for _, e := range met {
		if e == syscall.EEXIST {
			return
		}
		if strings.Contains(said, e.Error()) {
			return
		}
		names = append(names, e.Error())
	}
	if len(met) > 0 { // what it then met may be of its own making
		for e := range q.Met {
			own := syscall.Errno(e) == syscall.ENAMETOOLONG && strings.Contains(said, "getwd: ") // os.Getwd's last word
			if (q.Met[e] || own) && strings.Contains(said, syscall.Errno(e).Error()) {
				return
			}
		}
	}
	for _, r := range known {
		all := true
		for _, t := range r.texts {
			all = all && strings.Contains(said, strings.TrimSpace(t))
		}
		if all {
			return
		}
		names = append(names, fmt.Sprintf("the diagnostics of %s: %q", r.what, r.texts))
	}
	if len(names) == 0 {
		c.skip("failed without a known cause (C01)")
	}
	c.fail("failure-unexplained", "%v with faults%s: %s; standard error says none of %v, but\n%s", args[1:], describeFaults(q.Faults), q.Status(), names, tailOf(said))
}

// ---- C24: commands that look change nothing ----

func c24(c *Ctx) {
	ch := c.Ch
	p := newProject(c, projOpts{maxBuilds: 2, maxSources: 2, badSource: 6})
	k := p.K
	srcs := sortedKeys(p.Sources)
	src := srcs[ch.N(len(srcs))]
	c.messUp(p, src)
	flag := []string{"--nosuch", "-x", "--output=o", "-o", "--version=2"}[ch.N(5)]
	badFlag := false
	var args []string
	switch ch.N(12) {
	case 0:
		args = []string{"doctor"}
	case 1:
		args = []string{[]string{"--help", "-h", "help", "h"}[ch.N(4)]}
	case 2:
		args = []string{[]string{"generate", "gen", "init", "lex", "parse", "qrepl", "doctor"}[ch.N(7)], []string{"--help", "-h", "help"}[ch.Weighted(3, 3, 0)]}
	case 3:
		args = []string{"help", []string{"generate", "gen", "init", "lex", "parse", "qrepl", "doctor", "nosuch"}[ch.N(8)]}
	case 4:
	case 5:
		args = []string{[]string{"nosuch", "build", "version", "", "Generate", "generat", "initt", "-"}[ch.N(8)]}
	case 6:
		args, badFlag = []string{[]string{"generate", "gen", "init", "lex", "parse", "qrepl", "doctor"}[ch.N(7)], flag}, true
	case 7:
		args, badFlag = []string{flag, []string{"generate", "init", "doctor"}[ch.N(3)]}, true
	case 8, 9:
		args = []string{[]string{"lex", "parse"}[ch.N(2)], src}
		if ch.P(1, 8) {
			args[1] = []string{"nosuch.cddl", ".", "cddlc.json", "new/dir/x.cddl", p.Dir, src + "/", "-"}[ch.N(7)]
		}
		if ch.P(1, 6) {
			args = append(args, src)
		}
	default:
		args = []string{"qrepl"}
		if ch.P(1, 2) {
			args = append(args, "--lex")
		}
	}
	var stdin [][]byte
	for i := ch.N(6); i > 0; i-- {
		stdin = append(stdin, []byte([]string{"a = int\n", ":pv\n", ":help\n", ":tree a\n", "b = [ a: int\n", ":save x\n", "generate\n", "init\n", ":exit\n", "y\n", "> out.txt\n"}[ch.N(11)]))
	}
	args = append([]string{"/usr/bin/cddlc"}, args...)
	before := k.FS.Snapshot()
	ref, _ := c.pristineIn(k.FS, p.Dir, stdin, args...)
	c.crashed(ref, false)
	if badFlag && ref.OK() {
		c.fail("bad-flag-accepted", "%q exits 0", args[1:])
	}
	c.desc("%q with standard input %q", args[1:], stdin)
	c.shape(args[1:])
	for i := 0; i < 2; i++ {
		q := p.proc("look", args...)
		q.Stdin = stdin
		if i > 0 || ch.P(1, 2) {
			q.Faults = planFaults(ch, ref.Ops, 2, append(append([]int(nil), killKinds...), errorKinds...))
			noise(ch, q)
			if ch.P(1, 8) {
				q.OutFail = ch.N(400)
			}
			if ch.P(1, 8) {
				q.ErrFail = ch.N(100)
			}
		}
		where := fmt.Sprintf("%q with faults%s", args[1:], describeFaults(q.Faults))
		k.OnMut = func(_ *verifsim.Proc, what, pth string) {
			c.fail("disk-changed", "%s: %s %s", where, what, pth)
		}
		v := catch(func() { c.run(k, verifsim.SwitchNone, q) })
		k.OnMut = nil
		if v != nil {
			panic(v)
		}
		c.shapeProc(q, ref.Ops)
		c.crashed(q, false)
		now := k.FS.Snapshot()
		c.unchanged(before, now, where)
		for _, f := range newFiles(before, now) {
			c.fail("stray-file", "%s created %s", where, f)
		}
		if badFlag && q.OK() {
			c.fail("bad-flag-accepted", "%s exits 0", where)
		}
	}
}

// messUp puts a project into a state that a command might be tempted to tidy.
func (c *Ctx) messUp(p *Project, src string) {
	ch, fs := c.Ch, p.K.FS
	conf := p.Dir + "/cddlc.json"
	if fs.Get(p.Dir+"/cddlc.yaml") != nil && ch.P(1, 2) {
		conf = p.Dir + "/cddlc.yaml"
	}
	switch ch.Weighted(8, 1, 1, 1, 1, 1) {
	case 1:
		fs.Put(conf, nil)
		c.fault("config-empty")
	case 2:
		fs.Put(conf, []byte([]string{"{", "{}", "null", "builds: [", "\x00\x00\x00\x00"}[ch.N(5)]))
		c.fault("config-garbage")
	case 3:
		if fs.Get(conf) != nil {
			fs.Remove(conf)
		}
		c.fault("config-missing")
	case 4:
		if fs.Get(conf) != nil {
			fs.Remove(conf)
		}
		fs.Symlink(conf, []string{"gone.json", path.Base(conf)}[ch.N(2)])
		c.fault("config-dangling")
	case 5:
		if n := fs.Get(conf); n != nil {
			n.Mode = []uint32{0, 0600, 0777, 0444}[ch.N(4)]
			c.fault("config-mode")
		}
	}
	if ch.P(1, 3) {
		if n := fs.Get(src); n != nil && n.Kind == verifsim.KFile {
			t := string(n.Data)
			switch ch.N(7) {
			case 0:
				t = ""
			case 1:
				t = strings.ReplaceAll(t, "\n", "\r\n")
			case 2:
				t = strings.TrimRight(t, "\n")
			case 3:
				t = "\ufeff" + t
			case 4:
				t += "  \t \n\n\n"
			case 5:
				t, _, _ = damage(ch, t, "")
			case 6:
				t = strings.ReplaceAll(t, " ", "\t")
			}
			fs.Put(src, []byte(t))
			c.fault("source-untidy")
		}
	}
	if ch.P(1, 3) {
		dirs := []string{p.Dir}
		for _, b := range p.Builds {
			dirs = append(dirs, p.abs(b.Out), p.abs(b.Src))
		}
		for n := 1 + ch.N(3); n > 0; n-- {
			f := dirs[ch.N(len(dirs))] + "/" + []string{".cddlc-9-0.tmp", ".cddlc-101-0.tmp", "cddlc.json.tmp", "cddlc.json~", "cddlc.lock", ".cddlc.lock", "x.go.tmp", "orphan.go", ".cddlc_history", "core"}[ch.N(10)]
			if fs.Get(f) == nil && fs.Get(path.Dir(f)) != nil && fs.Get(path.Dir(f)).Kind == verifsim.KDir {
				fs.Put(f, []byte("left over\n"))
				c.fault("left-over-file")
			}
		}
	}
	fs.Wipe()
}
