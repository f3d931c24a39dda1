//go:build go1.22

package verifharness

import (
	"fmt"
	"path"
	"strings"
	"syscall"

	"MODULE/internal/verifsim"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
	props["C18"] = c18
	props["C20"] = c20
	props["C19"] = c19
	props["C23"] = c23
}

// good obtains the reference of a project and checks that a fault-free run of
// a valid project succeeds; judge says whether a failure is this property's
// business or a reason to skip.
func (c *Ctx) good(p *Project, judge bool) (*reference, map[string]string) {
	ref := c.reference(p)
	bad := p.anyBad() || p.anyRich()
	if ref.proc.Thread.Hung || ref.proc.Thread.Panic != nil {
		if !judge && !p.anyRich() {
			c.skip("reference run crashed")
		}
		c.crashed(ref.proc, p.anyRich())
	}
	if !bad && !ref.proc.OK() {
		if !judge {
			c.skip("reference run failed")
		}
		c.fail("valid-project-refused", "fault-free generate on a valid project: %s\n%s%s", ref.proc.Status(), ref.proc.Stdout, tailOf(string(ref.proc.Stderr)))
	}
	want := c.complete(p)
	for op, f := range p.outputs() {
		if !f.Bad && !f.Rich && want[op] == "" {
			if !judge {
				c.skip("reference run failed")
			}
			c.fail("valid-source-refused", "fault-free generate of %s on its own fails", f.Path)
		}
	}
	if judge {
		c.checkOutline(p, want)
	}
	return ref, want
}

func (c *Ctx) checkOutline(p *Project, got map[string]string) {
	outs := p.outputs()
	for _, op := range sortedKeys(outs) {
		f := outs[op]
		if f.Bad || got[op] == "" {
			continue
		}
		if e := outline(got[op], f, p.pkgOf(op)); e != "" {
			c.fail("incomplete-output", "output of %s: %s\nsource:\n%s\noutput:\n%s", f.Path, e, f.Text, got[op])
		}
	}
}

func tailOf(s string) string {
	if len(s) > 600 {
		s = "..." + s[len(s)-600:]
	}
	return s
}

// mustComplete fails when an output is not the complete code.
func (c *Ctx) mustComplete(p *Project, fs *verifsim.FS, want map[string]string, after string) {
	for _, op := range sortedKeys(want) {
		b, ok := fs.ReadFile(op)
		switch {
		case !ok:
			c.fail("output-missing", "%s: %s does not exist", after, op)
		case want[op] == "":
			c.fail("bad-source-accepted", "%s: the source of %s does not parse, or there is no code for it, yet generate exited 0", after, op)
		case string(b) != want[op]:
			c.fail("output-wrong", "%s: %s is not the complete code of its source (%d bytes, expected %d): %s", after, op, len(b), len(want[op]), firstDiff(string(b), want[op]))
		}
	}
}

// C01: exit 0 means every output is complete.
func c01(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 3, maxSources: 4}
	if ch.P(1, 6) {
		o.badSource = 3
	}
	if ch.P(1, 6) {
		o.rich = 3
	}
	o.many = 200
	p := newProject(c, o)
	if p.Conf != "" && ch.P(1, 16) {
		c.collision(p)
		return
	}
	ref, want := c.good(p, true)
	p.earlier(c, want)
	if ref.proc.OK() {
		c.mustComplete(p, ref.fs, want, "fault-free run")
	}
	n := 1 + ch.N(2)
	for i := 0; i < n; i++ {
		q := p.proc(fmt.Sprintf("gen%d", i))
		if !ch.P(1, 4) {
			q.Faults = planFaults(ch, ref.ops, 3, errorKinds)
		}
		noise(ch, q)
		if ch.P(1, 12) {
			q.OutFail = ch.N(50)
		}
		if ch.P(1, 12) {
			q.ErrFail = ch.N(200)
		}
		if ch.P(1, 20) {
			q.Nofile = 4 + ch.N(6)
		}
		c.desc("generate with faults%s noise=%d", describeFaults(q.Faults), q.Noise)
		c.run(p.K, verifsim.SwitchNone, q)
		c.shapeProc(q, ref.ops)
		c.crashed(q, p.anyRich())
		if q.OK() {
			c.mustComplete(p, p.K.FS, want, "exit status 0")
			if errored(q) {
				c.probe("exit-0-despite-error")
			}
		} else {
			c.probe("failed-run")
			if !errored(q) && !p.anyBad() && !p.anyRich() && !q.OutHit && !q.ErrHit {
				c.fail("refused-without-error", "no error was injected and all sources are valid, but: %s\n%s", q.Status(), tailOf(string(q.Stderr)))
			}
		}
	}
}

// collision: two sources are configured for one output, which cannot hold the
// code of both.
func (c *Ctx) collision(p *Project) {
	ch := c.Ch
	outs := p.outputs()
	op := sortedKeys(outs)[ch.N(len(outs))]
	sf := outs[op]
	pkg := p.pkgOf(op)
	b := Build{Pkg: pkg, Src: "colliding", Out: path.Dir(op)}
	other := p.abs(b.Src) + "/" + path.Base(sf.Path)
	if ch.P(1, 4) { // the same source, in two packages
		b.Pkg, b.Src, other = "another", path.Dir(sf.Path), ""
	}
	if ch.P(1, 4) { // by another way
		p.K.FS.MkdirAll(b.Out)
		p.K.FS.Symlink(p.Dir+"/other-way", b.Out)
		b.Out = []string{"other-way", p.Dir + "/other-way/"}[ch.N(2)]
	}
	if rel := strings.TrimPrefix(b.Out, p.Dir+"/"); rel != b.Out && ch.P(1, 2) {
		b.Out = []string{rel, rel + "/", "./" + rel, "sub/../" + rel}[ch.N(4)]
	}
	text := sf.Text
	if other != "" {
		text = p.addSource(c, other, projOpts{}).Text
	}
	at := ch.N(len(p.Builds) + 1)
	p.Builds = append(p.Builds[:at:at], append([]Build{b}, p.Builds[at:]...)...)
	p.writeConfig(ch)
	p.K.FS.Wipe()
	w1, w2 := c.alone(p, pkg, sf.Text), c.alone(p, b.Pkg, text)
	if w1 == "" || w2 == "" || w1 == w2 {
		c.skip("colliding sources give the same code, or none")
	}
	c.desc("%s is also the output of package %s from %s", op, b.Pkg, b.Src)
	q := p.proc("gen")
	noise(ch, q)
	c.run(p.K, verifsim.SwitchNone, q)
	c.crashed(q, p.anyRich())
	c.probe("colliding-outputs")
	c.shape("collision", at, other == "", b.Out)
	if q.OK() {
		c.fail("output-lost", "%s is configured for two sources (packages %s and %s) and can hold the code of one only, yet generate exited 0", op, pkg, b.Pkg)
	}
}

// C02: outputs are replaced all-or-nothing.
func c02(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 2, maxSources: 3}
	if ch.P(1, 3) {
		o.badSource = 2
	}
	if ch.P(1, 6) {
		o.rich = 2
	}
	p := newProject(c, o)
	ref, want := c.good(p, false)
	p.earlier(c, want)
	k := p.K
	outs := p.outputs()
	names := sortedKeys(outs)
	prior := map[string]string{}
	have := map[string]bool{}
	for _, op := range names {
		if b, ok := k.FS.ReadFile(op); ok {
			prior[op], have[op] = string(b), true
		}
	}
	state := func(op string) (string, bool) {
		n := k.FS.Get(op)
		if n == nil {
			return "", false
		}
		if n.Kind != verifsim.KFile {
			b, ok := k.FS.ReadFile(op)
			return string(b), ok
		}
		return string(n.Data), true
	}
	check := func(when string) {
		for _, op := range names {
			b, ok := state(op)
			if ok && want[op] != "" && b == want[op] {
				continue
			}
			if ok == have[op] && b == prior[op] {
				continue
			}
			what := fmt.Sprintf("%d bytes, neither the previous content (%d bytes) nor the complete output (%d bytes)", len(b), len(prior[op]), len(want[op]))
			cls := "output-torn"
			switch {
			case !ok:
				what, cls = "the previous output is gone", "output-lost"
			case want[op] == "":
				what, cls = "changed although its source does not parse, or there is no code for it", "output-of-bad-source"
			case len(b) == 0:
				what, cls = "empty", "output-empty"
			}
			c.fail(cls, "%s: %s: %s", when, op, what)
		}
	}
	rounds := 1 + ch.N(2)
	for r := 0; r < rounds; r++ {
		np := 1 + ch.Weighted(5, 3, 1)
		var ps []*verifsim.Proc
		kinds := errorKinds
		switch ch.Weighted(3, 4, 4) {
		case 1:
			kinds = append(append([]int(nil), killKinds...), errorKinds[:3]...)
		case 2:
			kinds = powerKinds
		}
		for i := 0; i < np; i++ {
			q := p.proc(fmt.Sprintf("gen%d.%d", r, i))
			q.Faults = planFaults(ch, ref.ops, 2, kinds)
			noise(ch, q)
			ps = append(ps, q)
			c.desc("generate %s with faults%s", q.Name, describeFaults(q.Faults))
		}
		c.containers(ps)
		k.OnMut = func(q *verifsim.Proc, what, pth string) {
			check(fmt.Sprintf("after %s %s by %s", what, pth, q.Name))
		}
		mode := verifsim.SwitchNone
		if np > 1 {
			mode = verifsim.SwitchSyscall
		}
		v := catch(func() { c.run(k, mode, ps...) })
		k.OnMut = nil
		if v != nil {
			panic(v)
		}
		if k.Power {
			k.Power = false
			k.FS.PowerLoss(ch)
			check("after power loss")
			c.probe("power-loss")
		}
		check("after the run")
		for _, q := range ps {
			c.shapeProc(q, ref.ops)
			c.crashed(q, true)
			if q.Killed {
				c.probe("killed")
			}
			if !q.OK() && !q.Killed {
				c.probe("failed-run")
			}
		}
		// what is there now is the previous state of the next round
		for _, op := range names {
			prior[op], have[op] = state(op)
		}
		k.FS.Wipe()
	}
}

// containers makes processes that run at once have the same process id, as in
// containers that share a directory.
func (c *Ctx) containers(ps []*verifsim.Proc) {
	if len(ps) > 1 && c.Ch.P(1, 4) {
		for _, q := range ps {
			q.Pid = 1
		}
		c.fault("same-process-id")
	}
}

// crashLoop is a container that is killed again and again at the same place,
// each time having got as far as the remains of the last time let it. It tells
// whether it happened.
func (c *Ctx) crashLoop(p *Project, ops []verifsim.Op) bool {
	ch := c.Ch
	if !ch.P(1, 40) {
		return false
	}
	at := ch.N(len(ops) + 1)
	var muts []int
	for i, o := range ops {
		if o.Mut {
			muts = append(muts, i)
		}
	}
	if len(muts) > 0 && ch.P(5, 6) {
		at = muts[ch.N(1+ch.N(len(muts)))]
	}
	kind := killKinds[ch.N(len(killKinds))]
	step := ch.Weighted(1, 4, 1)
	n := 2 + ch.LogN(100)
	c.desc("%d runs with process id 1, run i killed (%s) at call %d+%d*i", n, verifsim.FaultNames[kind], at, step)
	for i := 0; i < n; i++ {
		q := p.proc(fmt.Sprintf("loop%d", i))
		q.Pid = 1
		q.Faults = []verifsim.Fault{{At: at + i*step, K: kind, Arg: 500}}
		c.run(p.K, verifsim.SwitchNone, q)
	}
	c.fault("crash-loop")
	c.shape("loop", n, at, step, kind)
	return true
}

// catch runs fn and returns what it panicked with.
func catch(fn func()) (e any) {
	defer func() { e = recover() }()
	fn()
	return nil
}

// C03: generate touches nothing but its outputs.
func c03(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 3, maxSources: 3}
	if ch.P(1, 3) {
		o.badSource = 2
	}
	if ch.P(1, 6) {
		o.rich = 2
	}
	p := newProject(c, o)
	if ch.P(1, 3) {
		p.litterNames(c)
	}
	ref, want := c.good(p, false)
	p.earlier(c, want)
	k := p.K
	outs := p.outputs()
	p.obstruct(c)
	before := k.FS.Snapshot()
	allowedDir := map[string]bool{}
	for _, b := range p.Builds {
		for d := p.abs(b.Out); ; d = path.Dir(d) {
			allowedDir[d] = true
			if d == "/" {
				break
			}
		}
	}
	np := 1 + ch.Weighted(5, 2)
	var ps []*verifsim.Proc
	kinds := errorKinds
	switch ch.Weighted(5, 2, 1) {
	case 1:
		kinds = killKinds
	case 2:
		kinds = powerKinds
	}
	for i := 0; i < np; i++ {
		q := p.proc(fmt.Sprintf("gen%d", i))
		q.Faults = planFaults(ch, ref.ops, 3, kinds)
		noise(ch, q)
		if ch.P(1, 10) {
			q.Nofile = 4 + ch.N(5)
		}
		if ch.P(1, 8) {
			q.OutFail = ch.LogN(60)
		}
		if ch.P(1, 6) {
			q.ErrFail = ch.LogN(300)
		}
		ps = append(ps, q)
		c.desc("generate %s with faults%s", q.Name, describeFaults(q.Faults))
	}
	mode := verifsim.SwitchNone
	if np > 1 {
		mode = verifsim.SwitchSyscall
	}
	checkOld := func(when string) {
		now := k.FS.Snapshot()
		for _, f := range sortedKeys(before) {
			if outs[f] != nil {
				continue
			}
			b, n := before[f], now[f]
			if n.ID == 0 {
				c.fail("file-removed", "%s: %s is gone", when, f)
			}
			if b.Kind != n.Kind || b.Data != n.Data || b.ID != n.ID || b.Mode != n.Mode {
				c.fail("file-changed", "%s: %s changed (%s)", when, f, firstDiff(b.Data, n.Data))
			}
		}
	}
	k.OnMut = func(q *verifsim.Proc, what, pth string) {
		checkOld(fmt.Sprintf("after %s %s by %s", what, pth, q.Name))
	}
	v := catch(func() { c.run(k, mode, ps...) })
	k.OnMut = nil
	if v != nil {
		panic(v)
	}
	excused := false
	for _, q := range ps {
		if q.Killed || q.Unlink > 0 {
			excused = true
		}
		c.shapeProc(q, ref.ops)
		c.crashed(q, true)
	}
	if k.Power {
		k.FS.PowerLoss(ch)
	}
	checkOld("after the run")
	now := k.FS.Snapshot()
	for _, f := range sortedKeys(now) {
		if _, old := before[f]; old || outs[f] != nil {
			if s := outs[f]; s != nil && (s.Bad || s.Rich && want[f] == "") {
				if _, old := before[f]; !old {
					c.fail("output-of-bad-source", "%s was created although its source does not parse, or there is no code for it", f)
				}
			}
			continue
		}
		if now[f].Kind == verifsim.KDir {
			if !allowedDir[f] {
				c.fail("stray-directory", "%s was created", f)
			}
			continue
		}
		if !excused {
			c.fail("stray-file", "%s was left behind (%d bytes)", f, len(now[f].Data))
		}
		c.probe("litter-of-killed-run")
		if strings.HasSuffix(f, ".go") || strings.HasSuffix(f, ".cddl") {
			c.fail("stray-source", "the killed run left %s, which later tools would pick up", f)
		}
	}
}

// obstruct puts things in the way: files that only look like outputs, output
// paths that lead elsewhere, builds that cannot be done.
func (p *Project) obstruct(c *Ctx) {
	ch := c.Ch
	fs := p.K.FS
	outs := p.outputs()
	if ch.P(1, 4) { // the output of a source that is no longer there
		for _, b := range p.Builds {
			f := p.abs(b.Out) + "/gone.go"
			if outs[f] == nil && fs.Get(f) == nil {
				fs.Put(f, []byte("/*\n  File generated using `cddlc generate`. DO NOT EDIT\n*/\n\npackage "+b.Pkg+"\n\ntype Gone int\n"))
				c.probe("output-without-source")
			}
		}
	}
	names := sortedKeys(outs)
	if ch.P(1, 10) {
		op := names[ch.N(len(names))]
		switch ch.N(4) {
		case 0: // a directory with something in it
			fs.Remove(op)
			fs.Put(op+"/mine.txt", []byte("mine"))
			c.probe("output-is-directory")
		case 1:
			fs.Remove(op)
			fs.MkdirAll(op)
			c.probe("output-is-directory")
		default: // a symbolic link to another file
			to := []string{"/srv/elsewhere.go", path.Dir(op) + "/elsewhere.txt"}[ch.N(2)]
			fs.Put(to, []byte("package elsewhere\n"))
			fs.Remove(op)
			fs.Symlink(op, to)
			c.probe("output-is-link")
		}
	}
	if p.Conf != "" && ch.P(1, 10) {
		b := Build{Pkg: "lib", Src: []string{"nosuch", "no/such/dir", p.Dir + "/nosuch"}[ch.N(3)], Out: "gen_nosuch"}
		at := ch.N(len(p.Builds) + 1)
		p.Builds = append(p.Builds[:at:at], append([]Build{b}, p.Builds[at:]...)...)
		p.writeConfig(ch)
		c.probe("source-directory-missing")
	}
	fs.Wipe()
}

// litterNames plants files whose names a careless temporary-file scheme would
// collide with.
func (p *Project) litterNames(c *Ctx) {
	outs := p.outputs()
	for _, op := range sortedKeys(outs) {
		for _, suf := range []string{".tmp", "~", ".new", ".bak", ".temp", ".lock", ".partial", ".swp", ".old"} {
			if c.Ch.P(1, 4) && len(path.Base(op)) < 200 {
				p.K.FS.Put(op+suf, []byte("mine: "+suf))
			}
		}
		if c.Ch.P(1, 4) && len(path.Base(op)) < 200 {
			d, b := path.Split(op)
			for _, n := range []string{"." + b + ".tmp", "." + b, strings.TrimSuffix(b, ".go") + ".tmp", "tmp", ".tmp", "cddlc.tmp"} {
				if p.K.FS.Get(d+n) == nil {
					p.K.FS.Put(d+n, []byte("mine: "+n))
				}
			}
		}
	}
	p.K.FS.Wipe()
}

// C04: once faults stop, one run repairs everything.
func c04(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 2, maxSources: 3}
	p := newProject(c, o)
	_, want0 := c.good(p, true)
	p.earlier(c, want0)
	k := p.K
	phases := 1 + ch.N(4)
	if c.Deep {
		phases = 1 + ch.N(8)
	}
	panics := false
	// in a container the process id is the same every time
	container := ch.P(1, 3)
	if container {
		c.crashLoop(p, c.reference(p).ops)
	}
	for i := 0; i < phases; i++ {
		// edits
		for _, sp := range sortedKeys(p.Sources) {
			switch ch.Weighted(6, 3, 1) {
			case 1:
				p.edit(c, p.Sources[sp], o)
				c.fault("source-edited")
			case 2: // a version that does not parse
				f := p.Sources[sp]
				f.Bad = true
				f.Text = f.S.Text + breakers[ch.N(len(breakers))]
				if ch.P(1, 3) { // or one there may be no code for
					x := *f
					x.enrich(ch)
					f.Text = x.Text
					panics = true
				}
				k.FS.Put(sp, []byte(f.Text))
				c.fault("source-broken")
			}
		}
		if ch.P(1, 6) && p.Conf != "" {
			b := &p.Builds[ch.N(len(p.Builds))]
			b.Pkg = []string{"renamed", "v2", "lib"}[ch.N(3)]
			p.writeConfig(ch)
			c.fault("config-edited")
		}
		if ch.P(1, 8) {
			b := p.Builds[ch.N(len(p.Builds))]
			np := fmt.Sprintf("%s/late%d.cddl", p.abs(b.Src), i)
			p.addSource(c, np, o)
			c.fault("source-added")
		}
		if ch.P(3, 4) {
			k.FS.Wipe()
		}
		ref := c.reference(p)
		np := 1 + ch.Weighted(6, 1)
		kinds := append(append(append([]int(nil), errorKinds...), killKinds...), powerKinds...)
		var ps []*verifsim.Proc
		for j := 0; j < np; j++ {
			q := p.proc(fmt.Sprintf("gen%d.%d", i, j))
			if container {
				q.Pid = 1
			}
			q.Faults = planFaults(ch, ref.ops, 2, kinds)
			if ch.P(1, 4) {
				noise(ch, q)
			}
			if ch.P(1, 10) {
				q.Nofile = 4 + ch.N(4)
			}
			ps = append(ps, q)
			c.desc("phase %d: generate with faults%s", i, describeFaults(q.Faults))
		}
		mode := verifsim.SwitchNone
		if np > 1 {
			mode = verifsim.SwitchSyscall
		}
		c.run(k, mode, ps...)
		if k.Power {
			k.Power = false
			k.FS.PowerLoss(ch)
			c.probe("power-loss")
		}
		for _, q := range ps {
			c.shapeProc(q, ref.ops)
			c.crashed(q, panics)
		}
		if ch.P(1, 3) {
			k.FS.Wipe()
		}
	}
	// repair broken sources: the last edit before the faults stop
	for _, sp := range sortedKeys(p.Sources) {
		if f := p.Sources[sp]; f.Bad {
			f.Bad = false
			f.Text = f.S.Text
			k.FS.Put(sp, []byte(f.Text))
		}
	}
	want := c.complete(p)
	for op, f := range p.outputs() {
		if want[op] == "" {
			c.fail("valid-source-refused", "fault-free generate of %s on its own fails", f.Path)
		}
	}
	q := p.proc("final")
	if container {
		q.Pid = 1
	}
	c.run(k, verifsim.SwitchNone, q)
	c.crashed(q, false)
	if !q.OK() {
		c.fail("not-repaired", "faults have stopped and all sources are valid, but generate ends with %s\n%s", q.Status(), tailOf(string(q.Stderr)))
	}
	c.mustComplete(p, k.FS, want, "fault-free run after "+fmt.Sprint(phases)+" faulty phases")
}

// C05: same inputs give byte-identical outputs.
func c05(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 2, maxSources: 4, priorNone: true}
	p := newProject(c, o)
	ref, _ := c.good(p, false)
	base := map[string]string{}
	outs := p.outputs()
	for op := range outs {
		b, ok := ref.fs.ReadFile(op)
		if !ok {
			c.skip("reference run incomplete")
		}
		base[op] = string(b)
	}
	nv := 1 + ch.N(3)
	for v := 0; v < nv; v++ {
		fs := p.K.FS.Clone()
		s := c.newSim()
		c.goroutines(s)
		k := verifsim.NewKernel(s)
		k.FS = fs
		var what []string
		dir := p.Dir
		at := func(f string) string {
			if r, in := strings.CutPrefix(f, p.Dir); in {
				return dir + r
			}
			return f
		}
		sub := map[string]*SrcFile{}
		for op, f := range outs {
			sub[op] = f
		}
		env := []string(nil)
		anyEnv := ""
		args := p.Args
		var quiet bool
		vary := func(name string) { what = append(what, name); c.fault("varied-" + name) }
		if ch.P(1, 2) {
			k.Base = int64(ch.N(1<<30))*4e9 + int64(ch.N(1e9))
			vary("clock")
		}
		if ch.P(1, 2) {
			k.DirSeed = 1 + ch.Seed()
			vary("listing-order")
		}
		q0 := ch.N(4)
		if q0 > 0 {
			for i := 0; i < q0*7; i++ {
				k.NewProc("x", "/", "x")
			}
			vary("pid")
		}
		if ch.P(1, 2) {
			for i, op := range sortedKeys(outs) {
				switch (i + ch.N(5)) % 5 {
				case 3:
					fs.Put(op, editedByHand(ch, base[op]))
				case 0:
					fs.Put(op, []byte(strings.Repeat("stale\n", 1+ch.LogN(20000))))
				case 1:
					fs.Put(op, []byte(base[op]+"// trailing garbage\n"))
				case 2:
					fs.Put(op, nil)
				}
			}
			vary("previous-output")
		}
		if ch.P(1, 3) && len(p.Sources) > 1 {
			// build fewer sources in the same run
			sp := sortedKeys(p.Sources)
			keep := ch.N(len(sp))
			for i, f := range sp {
				if i != keep && ch.P(1, 2) {
					fs.Remove(f)
					for op := range sub {
						if outs[op].Path == f {
							delete(sub, op)
						}
					}
				}
			}
			vary("other-sources")
		} else if ch.P(1, 3) {
			// build more
			b := p.Builds[ch.N(len(p.Builds))]
			for i := 0; i < 1+ch.N(2); i++ {
				x := genSource(ch, genOpts{comments: true})
				fs.Put(fmt.Sprintf("%s/%s%d.cddl", p.abs(b.Src), []string{"aa_extra", "zz_extra"}[ch.N(2)], i), []byte(x.Text))
			}
			vary("other-sources")
		}
		if ch.P(1, 4) {
			for _, f := range sortedKeys(p.Sources) {
				if n := fs.Get(f); n != nil {
					n.MTime = int64(ch.N(1<<30)) * 1e9
					n.Mode = []uint32{0644, 0600, 0755, 0444}[ch.N(4)]
				}
			}
			vary("file-times-and-modes")
		}
		if ch.P(1, 4) {
			env = []string{"HOME=/root", "USER=root", "LANG=de_DE.UTF-8", "TERM=xterm", "PATH=/bin", "TZ=Asia/Tokyo", "PWD=" + p.Dir}
			vary("environment")
		}
		if ch.P(1, 4) {
			anyEnv = []string{"1", "true", "80", "/opt/x", "a b=c", "0"}[ch.N(6)]
			vary("further-variables")
		}
		var sets []func(q *verifsim.Proc)
		set := func(q *verifsim.Proc) {
			for _, f := range sets {
				f(q)
			}
		}
		with := func(f func(q *verifsim.Proc)) { sets = append(sets, f) }
		with(func(q *verifsim.Proc) { q.Env, q.AnyEnv = env, anyEnv })
		if ch.P(1, 4) {
			m := 1 + ch.N(20)
			with(func(q *verifsim.Proc) { q.Machine = m })
			vary("machine-and-user")
		}
		if ch.P(1, 2) {
			x2 := ch.Seed() * 0x9e3779b97f4a7c15
			with(func(q *verifsim.Proc) { q.Rand = x2 })
			vary("random-state")
		}
		if ch.P(1, 2) {
			x7 := 1 + ch.Seed()
			with(func(q *verifsim.Proc) { q.Noise = x7 })
			x9 := []int{2, 3, 5, 9}[ch.N(4)]
			with(func(q *verifsim.Proc) { q.NoiseDen = x9 })
			vary("split-and-interrupted-transfers")
		}
		if ch.P(1, 5) {
			x14 := ch.N(80)
			with(func(q *verifsim.Proc) { q.OutFail = x14 })
			quiet = true
			vary("stdout-failure")
		}
		if ch.P(1, 5) {
			x20 := ch.N(300)
			with(func(q *verifsim.Proc) { q.ErrFail = x20 })
			quiet = true
			vary("stderr-failure")
		}
		if ch.P(1, 5) {
			x26 := []uint32{0, 077, 027}[ch.N(3)]
			with(func(q *verifsim.Proc) { q.Umask = x26 })
			vary("umask")
		}
		movable := true
		for _, b := range p.Builds {
			if strings.HasPrefix(b.Src, "/") || strings.HasPrefix(b.Out, "/") {
				movable = false
			}
		}
		if movable && ch.P(1, 3) {
			dir = []string{"/elsewhere", "/srv/a b/c", "/home/u/go/src/x.org/y", "/w"}[ch.N(4)]
			fs.Move(p.Dir, dir)
			vary("location")
		}
		q := k.NewProc("var", dir, args...)
		set(q)
		c.desc("variant %d: %v", v, what)
		prior := fs.Snapshot()
		q.Start(budget(q), Main)
		s.Run()
		c.done(s)
		c.bookProcs(q)
		c.shape(what, q.Code)
		if q.Thread.Panic != nil || q.Thread.Hung {
			c.fail("run-depends-on-environment", "the same inputs crash when varying %v: %s", what, q.Status())
		}
		if !q.OK() && !quiet {
			c.fail("run-depends-on-environment", "the same inputs fail when varying %v: %s\n%s", what, q.Status(), tailOf(string(q.Stderr)))
		}
		for _, op := range sortedKeys(sub) {
			b, ok := fs.ReadFile(at(op))
			if !q.OK() && (!ok || string(b) == prior[at(op)].Data) {
				continue
			}
			if !ok {
				c.fail("output-missing", "varying %v: %s missing although status 0", what, op)
			}
			if string(b) != base[op] {
				c.fail("output-differs", "varying %v changes %s: %s", what, op, firstDiff(base[op], string(b)))
			}
		}
	}
}

// C06: a present configuration is honoured or the command fails.
func c06(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 2, maxSources: 2, priorNone: true, rules: 1 + ch.N(3)}
	p := newProject(c, o)
	k := p.K
	fs := k.FS
	// sources in "." let a wrong fallback to the default build show itself
	if len(p.Sources) > 0 && ch.P(3, 4) {
		f := p.Dir + "/zroot.cddl"
		x := genSource(ch, genOpts{rules: 1})
		fs.Put(f, []byte(x.Text))
		p.Sources[f] = &SrcFile{Path: f, S: x, Text: x.Text}
	}
	// distractors
	for _, d := range []string{"cddlc.abc", "cddlc.json.bak", "cddlc.jsonc", "cddlc.toml", "cddlc.txt", "cddlc.yml", "cddlc.", "cddlc.yaml.orig", "cddlc.lock", "cddlc.js", "cddlc.JSON"} {
		if ch.P(1, 8) {
			content := jsonConfig([]Build{{"wrong", ".", "wrong"}}, false)
			if ch.P(1, 3) {
				content = "\x00 not a configuration"
			}
			fs.Put(p.Dir+"/"+d, []byte(content))
			c.fault("distractor-file")
		}
	}
	if ch.P(1, 10) {
		fs.MkdirAll(p.Dir + "/cddlc.d/sub")
	}
	p.strayConfigs(c, 8)
	usable, vague, refuse := true, false, false
	// the file that decides
	main := ""
	switch p.Conf {
	case "json", "both":
		main = p.Dir + "/cddlc.json"
	case "yaml":
		main = p.Dir + "/cddlc.yaml"
	}
	kind := "intact"
	if main != "" {
		text, _ := fs.ReadFile(main)
		switch ch.Weighted(16, 4, 4, 2, 2, 2, 2, 2, 4, 2, 1, 1) {
		case 1: // cut off: surely undecodable for JSON; for YAML cut inside a quoted string
			kind = "cut-off"
			t := string(text)
			if strings.HasSuffix(main, ".json") {
				t = t[:ch.N(strings.LastIndex(t, "}"))]
			} else {
				t = yamlConfig(p.Builds)
				i := strings.LastIndex(t, "output: \"") + 9
				t = t[:i]
			}
			fs.Put(main, []byte(t))
			usable = false
		case 2:
			kind = "garbage"
			g := []string{"{]", "\x00\x00\x00\x00", "builds: [", "{\"builds\": 7}", "{\"builds\": [{\"src\": 5}]}", "- a\n- b\n", "\"just a string\"", "{\"builds\": {\"a\": 1}}"}[ch.N(8)]
			fs.Put(main, []byte(g))
			usable = false
		case 3:
			kind = "directory"
			fs.Remove(main)
			fs.MkdirAll(main)
			usable = false
		case 4:
			kind = "unreadable"
			fs.Get(main).Mode = 0
			usable = false
		case 5:
			kind = "symlink"
			fs.Put(p.Dir+"/real/conf.x", text)
			fs.Remove(main)
			fs.Symlink(main, "real/conf.x")
		case 6:
			kind = "symlink-loop"
			fs.Remove(main)
			fs.Symlink(main, path.Base(main))
			usable = false
		case 7:
			kind = "dangling-symlink"
			fs.Remove(main)
			fs.Symlink(main, []string{"gone.json", "missing/conf", "/nowhere/cddlc.json"}[ch.N(3)])
			usable = false
		case 8: // everything right but one value
			kind = "ill-typed"
			var bad string
			if strings.HasSuffix(main, ".json") {
				bad = []string{"\"options\": [1]", "\"options\": \"x\"", "\"plugins\": {\"a\": 1}", "\"plugins\": \"none\"", "\"version\": 1", "\"version\": {}", "\"plugins\": [7]", "\"version\": tru"}[ch.N(8)]
				t := strings.TrimSpace(jsonConfig(p.Builds, false))
				if ch.P(1, 2) {
					t = t[:1] + "\n  " + bad + "," + t[1:]
				} else {
					t = strings.TrimSuffix(t, "}") + ", " + bad + "}"
				}
				fs.Put(main, []byte(t))
			} else {
				bad = []string{"options: [1]\n", "options: x\n", "plugins: {a: 1}\n", "plugins: none\n", "version: {}\n", "version: [1]\n", "plugins: [7]\n", "options: \"x\n"}[ch.N(8)]
				t := strings.Replace(strings.Replace(yamlConfig(p.Builds), "version: \"1\"\n", "", 1), "plugins: []\n", "", 1)
				if ch.P(1, 2) {
					t = bad + t
				} else {
					t += bad
				}
				fs.Put(main, []byte(t))
			}
			usable = false
		case 10: // lists nothing to build
			kind = "no-builds"
			var t string
			if strings.HasSuffix(main, ".json") {
				t = []string{"{}", "{\"builds\": []}", "{\"version\": \"1\", \"plugins\": []}", "{\"builds\": null}\n", "{\"version\": \"1\"}", "null"}[ch.N(6)]
			} else {
				t = []string{"{}\n", "builds: []\n", "version: \"1\"\nplugins: []\n", "builds:\n", "version: \"1\"\n", "---\nversion: \"1\"\n"}[ch.N(6)]
			}
			fs.Put(main, []byte(t))
			p.Builds = nil
		case 11: // one build does not say where from or where to, or cannot be done
			kind = "incomplete-build"
			b := Build{"lib", p.Builds[0].Src, ""}
			switch ch.N(3) {
			case 1:
				b = Build{"lib", "", "into"}
			case 2:
				b = Build{"lib", "nosuch", "into"}
				refuse = true
			}
			at := ch.N(len(p.Builds) + 1)
			p.Builds = append(p.Builds[:at:at], append([]Build{b}, p.Builds[at:]...)...)
			vague = true
			p.writeConfig(ch)
		case 9:
			kind = "trailing-data"
			t := string(text)
			if strings.HasSuffix(main, ".json") {
				t += []string{"}", "garbage", "\x00\x00", "{\"builds\": []}", ","}[ch.N(5)]
			} else {
				t += []string{"---\nbuilds: []\n", "\x00\x00", "---\n- a\n", "}\n", "builds: [\n"}[ch.N(5)]
			}
			fs.Put(main, []byte(t))
			usable = false
		}
	}
	if kind != "intact" {
		c.fault("config-" + kind)
	}
	fs.Wipe()
	outs := p.outputs()
	want := c.complete(p)
	for op := range outs {
		if want[op] == "" {
			if !outs[op].Bad && c.aloneByDefault(outs[op].Text) {
				c.fail("valid-config-refused", "the source of %s can be generated from when there is no configuration, but not with\n%s\n%s",
					op, jsonConfig([]Build{{p.pkgOf(op), "s", "o"}}, false), tailOf(outs[op].Text))
			}
			c.skip("reference run failed")
		}
	}
	var ops []verifsim.Op
	if !vague {
		ops = c.reference(p).ops
	}
	q := p.proc("gen")
	if ch.P(2, 3) {
		// bias to the start, where the configuration is read
		n := 1 + ch.N(2)
		for i := 0; i < n; i++ {
			q.Faults = append(q.Faults, verifsim.Fault{At: ch.LogN(24), K: errorKinds[ch.N(len(errorKinds))], Arg: ch.N(1000)})
		}
	}
	noise(ch, q)
	if ch.P(1, 10) {
		q.Nofile = 3 + ch.N(3)
	}
	before := fs.Snapshot()
	c.desc("configuration %q is %s; faults%s", p.Conf, kind, describeFaults(q.Faults))
	c.run(k, verifsim.SwitchNone, q)
	c.shape(p.Conf, kind)
	c.shapeProc(q, ops)
	c.crashed(q, false)
	if refuse && q.OK() {
		c.fail("impossible-build-ignored", "a build of %v has no source directory, yet generate exits 0\n%s", p.Builds, tailOf(string(q.Stdout)))
	}
	now := fs.Snapshot()
	if !usable {
		if q.OK() {
			c.fail("unusable-config-ignored", "%s is %s, yet generate exits 0\n%s", main, kind, tailOf(string(q.Stdout)))
		}
		for _, f := range sortedKeys(now) {
			if b, ok := before[f]; !ok || b.Data != now[f].Data {
				c.fail("wrote-without-config", "%s is %s, yet generate wrote %s", main, kind, f)
			}
		}
		return
	}
	okDir := map[string]bool{}
	for _, b := range p.Builds {
		for d := p.abs(b.Out); d != "/"; d = path.Dir(d) {
			okDir[d] = true
		}
	}
	for _, f := range sortedKeys(now) {
		if b, ok := before[f]; ok && b.Data == now[f].Data {
			continue
		}
		if outs[f] == nil && !okDir[f] && q.Unlink == 0 {
			c.fail("other-build", "configuration %q (%v), but generate wrote %s", p.Conf, p.Builds, f)
		}
	}
	if q.OK() && !vague {
		c.mustComplete(p, fs, want, fmt.Sprintf("configuration %q, exit status 0", p.Conf))
	}
	if !q.OK() && !vague && q.ErrHits == 0 && q.OutFail < 0 && q.ErrFail < 0 {
		c.fail("valid-config-refused", "configuration %q is %s and no call was made to fail, yet generate ends with %s\n%s", p.Conf, kind, q.Status(), tailOf(string(q.Stderr)))
	}
}

// C18: each output reflects one version of its source.
func c18(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 2, maxSources: 3}
	p := newProject(c, o)
	ref, want := c.good(p, false)
	p.earlier(c, want)
	k := p.K
	outs := p.outputs()
	names := sortedKeys(outs)
	prior := map[string]string{}
	have := map[string]bool{}
	for _, op := range names {
		if b, ok := k.FS.ReadFile(op); ok {
			prior[op], have[op] = string(b), true
		}
	}
	type version struct {
		text string
		bad  bool
		gone bool
	}
	live := map[string][]version{} // versions that existed during the run
	curV := map[string]version{}
	for _, f := range p.Sources {
		curV[f.Path] = version{text: f.Text}
		live[f.Path] = []version{{text: f.Text}}
	}
	q := p.proc("gen")
	noise(ch, q)
	paths := sortedKeys(p.Sources)
	type ed struct {
		path string
		v    version
	}
	var plan []ed
	panics := false
	n := 1 + ch.N(6)
	for i := 0; i < n; i++ {
		sp := paths[ch.N(len(paths))]
		switch ch.Weighted(6, 1, 1, 2, 1) {
		case 4: // one there may be no code for
			x := SrcFile{S: genSource(ch, genOpts{comments: true})}
			x.enrich(ch)
			plan = append(plan, ed{sp, version{text: x.Text}})
			panics = true
		case 0:
			x := genSource(ch, genOpts{comments: true})
			if ch.P(1, 60) {
				x.bulk(ch, c.Deep)
			}
			plan = append(plan, ed{sp, version{text: x.Text}})
		case 1:
			plan = append(plan, ed{sp, version{text: genSource(ch, genOpts{}).Text + breakers[ch.N(len(breakers))], bad: true}})
		case 2:
			plan = append(plan, ed{sp, version{gone: true}})
		case 3: // same length, other content: a split read would not notice
			t := []byte(curV[sp].text)
			x := strings.NewReplacer("int", "nil", "bool", "text", "nil", "int").Replace(string(t))
			plan = append(plan, ed{sp, version{text: x}})
		}
	}
	wantOf := map[string]map[string]string{}
	vanishedOpen := ""
	everGone := map[string]bool{}
	base := map[string]string{}
	for _, f := range paths {
		base[f] = f
	}
	k.OnOp = func(x *verifsim.Proc, what, pth string, e syscall.Errno) {
		if what == "open" && e == syscall.ENOENT {
			a := pth
			a = path.Join(p.abs(path.Dir(a)), path.Base(a))
			if base[a] != "" {
				vanishedOpen = a
			}
		}
	}
	s := c.newSim()
	s.Mode = verifsim.SwitchSyscall
	s.GapMax = 24
	c.goroutines(s)
	k.Rebind(s)
	q.Start(budget(q), Main)
	applied := 0
	s.Go("editor", nil, 0, func() {
		for _, e := range plan {
			if q.N == 0 {
				live[e.path] = nil // replaced before the run did anything
			}
			live[e.path] = append(live[e.path], e.v)
			if e.v.gone {
				k.FS.Remove(e.path)
				everGone[e.path] = true
			} else {
				k.FS.Put(e.path, []byte(e.v.text))
			}
			s.Note("editor: replace %s (gone=%v bad=%v)", e.path, e.v.gone, e.v.bad)
			if !q.Exited {
				applied++
			}
			verifsim.Point()
		}
	})
	before := k.Clock
	s.Run()
	k.OnOp = nil
	c.St.SimNs += k.Clock - before
	c.done(s)
	c.bookProcs(q)
	c.desc("%d edits, %d of them during the run, faults%s", len(plan), applied, describeFaults(q.Faults))
	if applied > 0 {
		c.fault("source-replaced-during-run")
	}
	c.shape(applied, len(everGone), q.Code, s.Switch)
	for _, e := range plan {
		c.shape(e.v.gone, e.v.bad)
	}
	_ = ref
	c.crashed(q, panics)
	if vanishedOpen != "" {
		c.fault("source-vanished-before-open")
		if q.OK() {
			c.fail("vanished-source-ignored", "%s vanished before it was read, yet generate exits 0", vanishedOpen)
		}
	}
	for _, op := range names {
		f := outs[op]
		b, ok := k.FS.ReadFile(op)
		if ok == have[op] && string(b) == prior[op] {
			if q.OK() && !everGone[f.Path] {
				// must be one of the versions then; checked below
			} else {
				continue
			}
		}
		if !ok {
			c.fail("output-lost", "%s: no output, status %s", op, q.Status())
		}
		if wantOf[op] == nil {
			wantOf[op] = map[string]string{}
		}
		match := false
		for _, v := range live[f.Path] {
			if v.gone || v.bad {
				continue
			}
			if w := c.alone(p, p.pkgOf(op), v.text); w != "" && w == string(b) {
				match = true
				break
			}
		}
		if !match {
			c.fail("output-mixed", "%s (%d bytes) is not the complete code of any of the %d versions its source had during the run", op, len(b), len(live[f.Path]))
		}
	}
}

// C19: open files do not grow with the project.
func c19(c *Ctx) {
	ch := c.Ch
	tiny := ch.P(1, 3)
	o := projOpts{maxBuilds: 4, maxSources: 2, forceConf: ch.P(1, 2), rules: 1}
	p := newProject(c, o)
	if !tiny && p.Conf != "" && ch.P(1, 5) { // many builds
		m := 34 + ch.N(40)
		for i := 0; i < m; i++ {
			b := Build{"lib", fmt.Sprintf("dirs/s%d", i), fmt.Sprintf("dirs/o%d", i)}
			if ch.P(1, 8) {
				b.Out = "dirs/all"
			}
			p.Builds = append(p.Builds, b)
			f := fmt.Sprintf("%s/d%d.cddl", p.abs(b.Src), i)
			text := fmt.Sprintf("dir-%d = int\n", i)
			p.Sources[f] = &SrcFile{Path: f, Text: text, S: &Source{Text: text, Rules: []RuleInfo{{Name: fmt.Sprintf("dir-%d", i), Decl: []string{fmt.Sprintf("type Dir%d int", i)}}}}}
			p.K.FS.Put(f, []byte(text))
		}
		p.writeConfig(ch)
		c.probe("many-builds")
	}
	n := 34 + ch.N(60)
	if ch.P(1, 12) {
		n = 100 + ch.N(1000)
	}
	if tiny {
		n = ch.N(6)
	}
	p.addMany(c, n)
	p.K.FS.Wipe()
	outs := p.outputs()
	prior := map[string]string{}
	have := map[string]bool{}
	for op := range outs {
		if b, ok := p.K.FS.ReadFile(op); ok {
			prior[op], have[op] = string(b), true
		}
	}
	ref := c.reference(p)
	if !ref.proc.OK() {
		c.skip("reference run failed")
	}
	if ch.P(1, 3) { // most outputs are there already
		for _, op := range sortedKeys(outs) {
			if w, ok := ref.out[op]; ok && ch.P(15, 16) {
				if ch.P(1, 40) {
					w += "\n"
				}
				p.K.FS.Put(op, []byte(w))
				prior[op], have[op] = w, true
			}
		}
		p.K.FS.Wipe()
		c.probe("outputs-there-already")
	}
	q := p.proc("gen")
	q.Nofile = 32
	if tiny {
		q.Nofile = 3 + ch.N(8)
	}
	noise(ch, q)
	c.desc("limit of %d open files, %d outputs", q.Nofile, len(outs))
	c.fault("open-file-limit-set")
	c.run(p.K, verifsim.SwitchNone, q)
	c.shape(q.Nofile, len(outs), q.Code, q.MaxFds)
	c.crashed(q, false)
	hit := q.Fired[verifsim.FMfile] > 0
	if hit {
		c.probe("limit-hit")
	}
	if q.MaxFds >= 8 {
		c.probe("8-or-more-files-open")
	}
	if q.MaxFds >= 24 {
		c.probe("24-or-more-files-open")
	}
	if q.Nofile >= 32 {
		if !q.OK() {
			c.fail("too-many-open-files", "%d sources under a limit of 32 open files: %s (most open at once: %d)\n%s", len(outs), q.Status(), q.MaxFds, tailOf(string(q.Stderr)))
		}
	} else if hit && q.OK() {
		c.probe("succeeded-despite-limit")
	} else if !hit && !q.OK() {
		c.fail("failed-without-limit", "the limit of %d was not reached, but: %s", q.Nofile, q.Status())
	}
	for op := range outs {
		b, ok := p.K.FS.ReadFile(op)
		if ok && string(b) == ref.out[op] {
			continue
		}
		if q.OK() {
			c.fail("output-wrong", "exit 0 but %s is not complete", op)
		}
		if ok != have[op] || string(b) != prior[op] {
			c.fail("output-damaged", "%s: %d bytes, neither the previous nor the complete content", op, len(b))
		}
	}
}

// C20: a run follows one version of its configuration.
func c20(c *Ctx) {
	ch := c.Ch
	dir := []string{"/w", "/home/u/project", "/home/u/[x] 50%d"}[ch.N(3)]
	k := verifsim.NewKernel(c.newSim())
	p := &Project{K: k, Dir: dir, Args: []string{"cddlc", "generate"}}
	if ch.P(1, 3) {
		p.Args[1] = "gen"
	}
	k.FS.MkdirAll(dir)
	k.FS.MkdirAll("/tmp")
	srcs := map[string]map[string]string{} // directory, base name, text
	for _, d := range []string{".", "s0", "s1", "s2"} {
		srcs[d] = map[string]string{}
		k.FS.MkdirAll(path.Join(dir, d))
		n := ch.N(3)
		if d != "." && n == 0 && ch.P(3, 4) {
			n = 1
		}
		for i := 0; i < n; i++ {
			b := words[ch.N(len(words))]
			t := genSource(ch, genOpts{comments: true, rules: 1 + ch.N(3)}).Text
			srcs[d][b] = t
			k.FS.Put(path.Join(dir, d, b+".cddl"), []byte(t))
		}
	}
	draw := func() (bs []Build) {
		n := 1 + ch.LogN(3)
		if n > 3 {
			n = 3
		}
		outs := []string{"o0", "o1", "gen/o2", "s1", "dist"}
		for i := 0; i < n; i++ {
			j := ch.N(len(outs))
			s := []string{"s0", "s1", "s2", "s0", "s1", "s2", "."}[ch.N(7)]
			bs = append(bs, Build{[]string{"lib", "models", "wire"}[ch.N(3)], s, outs[j]})
			outs = append(outs[:j:j], outs[j+1:]...)
		}
		return
	}
	// what the two files say at one time
	type version struct {
		json, yaml   string
		jBuilds      []Build
		yBuilds      []Build
		jBad, yBad   bool
		jFile, yFile bool
	}
	unusable := func(json bool) string {
		if json {
			return []string{"", "{", "{\"builds\": [", "null}", "{\"builds\": 7}"}[ch.N(5)]
		}
		return []string{"builds: [", "builds: 7\n", "- a\n", "\"x"}[ch.N(4)]
	}
	var cur version
	jName, yName := dir+"/cddlc.json", dir+"/cddlc.yaml"
	set := func(json bool, what int) { // 0 builds, 1 unusable, 2 none, 3 nothing to build, 4 builds without package
		text, bad := "", what == 1
		var bs []Build
		switch what {
		case 3:
			text = []string{"{\"version\": \"1\"}\n", "{}"}[ch.N(2)] // YAML as well
		case 4:
			var l []string
			for _, b := range draw() {
				b.Pkg = ""
				bs = append(bs, b)
				l = append(l, fmt.Sprintf("{\"src\": %q, \"output\": %q}", b.Src, b.Out))
			}
			text = "{\"builds\": [" + strings.Join(l, ", ") + "]}"
		case 0:
			bs = draw()
			if json {
				text = jsonConfig(bs, ch.P(1, 4))
			} else {
				text = yamlConfig(bs)
			}
		case 1:
			text = unusable(json)
		}
		if json {
			cur.json, cur.jBuilds, cur.jBad, cur.jFile = text, bs, bad, what != 2
		} else {
			cur.yaml, cur.yBuilds, cur.yBad, cur.yFile = text, bs, bad, what != 2
		}
	}
	set(true, []int{0, 0, 0, 2, 1}[ch.N(5)])
	set(false, []int{0, 2, 2}[ch.N(3)])
	onJson := ch.P(2, 3) // the file that is edited; the other one stays
	if cur.jFile && !onJson && ch.P(2, 3) {
		onJson = true
	}
	put := func(v version) {
		for _, f := range []struct {
			name, text string
			there      bool
		}{{jName, v.json, v.jFile}, {yName, v.yaml, v.yFile}} {
			b, ok := k.FS.ReadFile(f.name)
			switch {
			case !f.there && ok:
				k.FS.Remove(f.name)
			case f.there && (!ok || string(b) != f.text):
				k.FS.Put(f.name, []byte(f.text))
			}
		}
	}
	put(cur)
	var plan []version
	first := cur
	withInit := !first.jFile && ch.P(1, 3)
	if !withInit || !onJson {
		for n := 1 + ch.N(5); n > 0; n-- {
			set(onJson, []int{0, 0, 0, 0, 1, 2, 3, 4}[ch.N(8)])
			plan = append(plan, cur)
		}
	}
	k.FS.Wipe()
	// what a run that follows a version writes; false when it fails
	effect := func(v version) (map[string]string, bool) {
		bs := []Build{{"", ".", "dist/"}}
		switch {
		case v.jFile && v.jBad || !v.jFile && v.yBad:
			return nil, false
		case v.jFile:
			bs = v.jBuilds
		case v.yFile:
			bs = v.yBuilds
		}
		m := map[string]string{}
		for _, b := range bs {
			for _, n := range sortedKeys(srcs[b.Src]) {
				m[path.Join(dir, b.Out, n+".go")] = c.alone(p, b.Pkg, srcs[b.Src][n])
			}
		}
		return m, true
	}
	before := k.FS.Snapshot()
	live := []version{first}
	clean := true // no version of the run makes it fail
	q := p.proc("gen")
	noise(ch, q)
	s := c.newSim()
	s.Mode = verifsim.SwitchSyscall
	s.GapMax = []int{4, 12, 24, 60}[ch.N(4)]
	c.goroutines(s)
	k.Rebind(s)
	q.Start(budget(q), Main)
	procs := []*verifsim.Proc{q}
	if withInit {
		w := p.proc("init", "cddlc", "init")
		noise(ch, w)
		w.Start(budget(w), Main)
		procs = append(procs, w)
		clean = false
		v := first
		v.jFile, v.jBuilds = true, []Build{{"", ".", "dist/"}}
		live = append(live, v)
		c.fault("config-created-during-run")
	}
	applied := 0
	s.Go("editor", nil, 0, func() {
		for _, v := range plan {
			if q.N == 0 && !withInit {
				live = nil // replaced before the run did anything
			}
			live = append(live, v)
			if withInit { // init creates the other one
				w := v
				w.jFile, w.jBad, w.jBuilds = true, false, []Build{{"", ".", "dist/"}}
				live = append(live, w)
				if v.yFile {
					k.FS.Put(yName, []byte(v.yaml))
				} else {
					k.FS.Remove(yName)
				}
			} else {
				put(v)
			}
			s.Note("editor: cddlc.json there=%v unusable=%v %v, cddlc.yaml there=%v unusable=%v %v", v.jFile, v.jBad, v.jBuilds, v.yFile, v.yBad, v.yBuilds)
			if !q.Exited {
				applied++
			}
			verifsim.Point()
		}
	})
	t0 := k.Clock
	s.Run()
	c.St.SimNs += k.Clock - t0
	c.done(s)
	c.bookProcs(procs...)
	c.desc("%d edits, %d of them during the run, init=%v", len(plan), applied, withInit)
	if applied > 0 {
		c.fault("config-replaced-during-run")
	}
	c.shape(first.jFile, first.jBad, first.yFile, first.yBad, onJson, withInit, applied, q.Code, s.Switch)
	for _, v := range plan {
		c.shape(v.jFile, v.jBad, v.yFile, v.yBad)
	}
	c.crashed(q, false)
	wrote := map[string]string{}
	var made []string // directories
	now := k.FS.Snapshot()
	for f, e := range now {
		if b, ok := before[f]; f != jName && f != yName && (!ok || b.Data != e.Data) {
			if e.Kind == verifsim.KDir {
				made = append(made, f)
			} else {
				wrote[f] = e.Data
			}
		}
	}
	for f := range before {
		if _, ok := now[f]; !ok && f != jName && f != yName {
			c.fail("file-lost", "%s is gone", f)
		}
	}
	var seen []string
	usable, matched, gone := false, false, false
	for i, v := range live {
		m, ok := effect(v)
		what := fmt.Sprintf("%v", sortedKeys(m))
		if !ok {
			clean, what = false, "fails"
		} else {
			usable = true
		}
		if i > 0 && (live[i-1].jFile && !v.jFile || live[i-1].yFile && !v.yFile) {
			gone = true
		}
		seen = append(seen, what)
		if !ok {
			matched = matched || !q.OK() && len(wrote)+len(made) == 0
			continue
		}
		same := len(m) == len(wrote)
		part := true
		for f, d := range wrote {
			if w, ok := m[f]; !ok || w == "" || w != d {
				same, part = false, false
			}
		}
		for _, d := range made {
			leads := false
			for f := range m {
				leads = leads || strings.HasPrefix(f, d+"/")
			}
			same, part = same && leads, part && leads
		}
		matched = matched || q.OK() && same || !q.OK() && part
	}
	list := strings.Join(seen, "; ")
	if !matched {
		c.fail("no-version-followed", "%s, having written %v: no version of the configuration that existed during the run gives that; they give %s\n%s", q.Status(), sortedKeys(wrote), list, tailOf(string(q.Stderr)))
	}
	if !usable && q.OK() {
		c.fail("no-version-followed", "%s, though every version of the configuration was unusable", q.Status())
	}
	if clean && !gone && !q.OK() {
		c.fail("usable-versions-refused", "%s, though each version of the configuration that existed during the run is usable: %s\n%s", q.Status(), list, tailOf(string(q.Stderr)))
	}
}

// C23: runs in one project do not make each other fail.
func c23(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 2, maxSources: 3}
	p := newProject(c, o)
	ref, want := c.good(p, false)
	p.earlier(c, want)
	k := p.K
	rounds := 1 + ch.N(2)
	loop := c.crashLoop(p, ref.ops)
	for r := 0; r < rounds; r++ {
		var ps, sound []*verifsim.Proc
		np := 1 + ch.Weighted(1, 5, 3, 1)
		for i := 0; i < np; i++ {
			q := p.proc(fmt.Sprintf("gen%d.%d", r, i))
			noise(ch, q)
			if i > 0 && ch.P(1, 3) { // one that is killed or fails
				q.Faults = planFaults(ch, ref.ops, 2, []int{verifsim.FErrno, verifsim.FTorn, verifsim.FMfile, verifsim.FKillBefore, verifsim.FKillAfter, verifsim.FKillMid})
			}
			if len(q.Faults) == 0 {
				sound = append(sound, q)
			}
			ps = append(ps, q)
			c.desc("generate %s with faults%s", q.Name, describeFaults(q.Faults))
		}
		if loop { // restarted once more
			ps[0].Pid = 1
		}
		c.containers(ps)
		if p.Conf == "json" || p.Conf == "both" {
			if ch.P(1, 6) { // refused, there is a configuration
				ps = append(ps, p.proc("init", "/usr/bin/cddlc", "init"))
			}
		}
		if ch.P(1, 6) {
			f := sortedKeys(p.Sources)[0]
			ps = append(ps, p.proc("reader", "/usr/bin/cddlc", []string{"lex", "parse"}[ch.N(2)], f))
		}
		// somebody at work in the same directories, on other files
		var dirs []string
		for _, b := range p.Builds {
			dirs = append(dirs, p.abs(b.Src), p.abs(b.Out))
		}
		dirs = append(dirs, p.Dir)
		type act struct {
			file, to string
			gone     bool
		}
		var plan []act
		for i := ch.N(3) * ch.LogN(8); i > 0; i-- {
			d := dirs[ch.N(len(dirs))]
			f := d + "/" + []string{".z.cddl.swp", "4913", "z.cddl~", "draft.txt", "#z.cddl#", "z.cddl.tmp", "zz_test.go.tmp", ".cddlc.tmp"}[ch.N(8)]
			switch {
			case len(plan) > 0 && ch.P(2, 3):
				l := plan[len(plan)-1]
				if l.gone || l.to != "" || ch.P(1, 3) {
					plan = append(plan, act{file: f})
				} else if ch.P(1, 2) {
					plan = append(plan, act{file: l.file, to: l.file + "2"})
				} else {
					plan = append(plan, act{file: l.file, gone: true})
				}
			default:
				plan = append(plan, act{file: f})
			}
		}
		s := c.newSim()
		s.Mode = verifsim.SwitchSyscall
		s.GapMax = []int{2, 6, 24}[ch.N(3)]
		if ch.P(1, 3) {
			s.Dense, s.Robin, s.MaxSw, s.StopDen = true, ch.P(1, 2), 20000, 1<<20
		}
		c.goroutines(s)
		k.Rebind(s)
		for _, q := range ps {
			q.Start(budget(q), Main)
		}
		s.Go("editor", nil, 0, func() {
			for _, a := range plan {
				st := k.FS.Get(path.Dir(a.file))
				if st != nil && st.Kind == verifsim.KDir {
					switch {
					case a.gone:
						k.FS.Remove(a.file)
					case a.to != "":
						if b, ok := k.FS.ReadFile(a.file); ok {
							k.FS.Remove(a.file)
							k.FS.Put(a.to, b)
						}
					default:
						k.FS.Put(a.file, []byte("half = "))
					}
					s.Note("editor: %s -> %s gone=%v", a.file, a.to, a.gone)
					c.fault("other-file-changed-during-run")
				}
				verifsim.Point()
			}
		})
		before := k.Clock
		dead := s.Run()
		c.St.SimNs += k.Clock - before
		c.done(s)
		c.bookProcs(ps...)
		if dead {
			c.fail("deadlock", "processes wait for each other for ever")
		}
		if s.Switch > 0 && len(ps) > 1 {
			c.fault("concurrent-run")
		}
		c.shape(len(ps), len(sound), len(plan), s.Switch)
		for _, q := range ps {
			c.logf("%s (pid %d, %v): %s", q.Name, q.Pid, q.Args[1:], q.Status())
			c.shapeProc(q, ref.ops)
			if q.Killed {
				c.probe("killed")
			}
		}
		for _, q := range sound {
			c.crashed(q, false)
			if !q.OK() {
				c.fail("disturbed", "no call of %s was made to fail and all sources are valid, but with %d other processes at work in the project: %s\n%s%s", q.Name, len(ps)-1, q.Status(), q.Stdout, tailOf(string(q.Stderr)))
			}
		}
		if len(sound) > 0 {
			c.mustComplete(p, k.FS, want, fmt.Sprintf("%d of %d processes had no fault", len(sound), len(ps)))
		}
		k.FS.Wipe()
	}
}
