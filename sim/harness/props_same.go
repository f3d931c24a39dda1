//go:build go1.22

package verifharness

import (
	"fmt"
	"path"
	"regexp"
	"strings"

	"MODULE/internal/verifsim"
)

func init() {
	props["C26"] = c26
}

// ---- C26: what a command does depends only on its input ----

var stampRe = regexp.MustCompile(`\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)?`)
var wordRe = regexp.MustCompile("[^\\s:`'\"]+")

// sameText compares what two runs printed. Time stamps, heap addresses and the
// names of temporary files may differ.
func sameText(a, b string, exists func(string) bool) bool {
	norm := func(s string) string { return stampRe.ReplaceAllString(noAddrs(s), "<time>") }
	a, b = norm(a), norm(b)
	if a == b {
		return true
	}
	if wordRe.ReplaceAllString(a, "w") != wordRe.ReplaceAllString(b, "w") {
		return false
	}
	wa, wb := wordRe.FindAllString(a, -1), wordRe.FindAllString(b, -1)
	for i := range wa {
		x, y := wa[i], wb[i]
		if x == y {
			continue
		}
		if !strings.Contains(x, "/") || path.Dir(x) != path.Dir(y) || exists(x) || exists(y) || digits.ReplaceAllString(x, "") == "" {
			return false
		}
	}
	return true
}

var digits = regexp.MustCompile(`\d+`)

func c26(c *Ctx) {
	ch := c.Ch
	o := projOpts{maxBuilds: 3, maxSources: 5, badSource: []int{2, 4, 10}[ch.N(3)]}
	if ch.P(1, 3) {
		o.rich = 3
	}
	p := newProject(c, o)
	fs := p.K.FS
	srcs := sortedKeys(p.Sources)
	for _, f := range srcs {
		if ch.P(1, 4) {
			if n := fs.Get(f); n != nil && n.Kind == verifsim.KFile {
				t, _, _ := damage(ch, string(n.Data), "")
				fs.Put(f, []byte(t))
			}
		}
	}
	src := srcs[ch.N(len(srcs))]
	if ch.P(1, 4) {
		c.messUp(p, src)
	}
	var args []string
	var stdin []byte
	switch ch.Weighted(8, 2, 2, 4, 3, 1) {
	case 0:
		args = []string{p.Args[1]}
	case 1:
		args = []string{"init"}
		if ch.P(2, 3) && fs.Get(p.Dir+"/cddlc.json") != nil {
			fs.Remove(p.Dir + "/cddlc.json")
		}
	case 2:
		args = []string{"lex", src}
	case 3:
		args = []string{"parse", src}
	case 4:
		args = []string{"qrepl"}
		if ch.P(1, 3) {
			args = append(args, "--lex")
		}
		known := map[string]bool{}
		var sb strings.Builder
		sb.WriteString([]string{"", ":pv\n"}[ch.N(2)])
		for n := 1 + ch.LogN(12); n > 0; n-- {
			l := genReplLine(ch, known, false)
			if len(l.text) < 5000 {
				sb.WriteString(l.text + "\n")
			}
			if ch.P(1, 4) {
				sb.WriteString(":tree " + sessName(ch) + "\n")
			}
		}
		if ch.P(2, 3) {
			sb.WriteString(":exit\n")
		}
		stdin = []byte(sb.String())
	case 5:
		args = [][]string{{"doctor"}, {}, {"help"}, {"--help"}, {"help", "generate"}, {"nosuch"}, {"generate", "-x"}, {"lex"}, {"parse", "nosuch.cddl"}}[ch.N(9)]
	}
	args = append([]string{"/usr/bin/cddlc"}, args...)
	fs.Wipe()
	one := func(k *verifsim.Kernel, s *verifsim.Sim, set func(q *verifsim.Proc)) *verifsim.Proc {
		q := k.NewProc("same", p.Dir, args...)
		if stdin != nil {
			q.Stdin = [][]byte{stdin}
		}
		if set != nil {
			set(q)
		}
		q.Start(budget(q), Main)
		s.Run()
		c.done(s)
		c.bookProcs(q)
		return q
	}
	fresh := func() (*verifsim.Kernel, *verifsim.Sim) {
		s := c.newSim()
		k := verifsim.NewKernel(s)
		k.FS = fs.Clone()
		return k, s
	}
	k0, s0 := fresh()
	base := one(k0, s0, nil)
	if base.Thread.Hung {
		c.skip("hangs (C04, C09)")
	}
	left := k0.FS.Snapshot()
	c.desc("%q in a project of %d sources, standard input %s: %s", args[1:], len(srcs), short(string(stdin)), base.Status())
	c.shape(args[1:min(2, len(args))], base.Code, base.Thread.Panic != nil, len(base.Stderr) > 0)
	for v := 1 + ch.N(3); v > 0; v-- {
		k, s := fresh()
		c.goroutines(s)
		var what []string
		vary := func(name string) { what = append(what, name); c.fault("varied-" + name) }
		if ch.P(1, 2) {
			k.Base = int64(ch.N(1<<30))*4e9 + int64(ch.N(1e9))
			vary("clock")
		}
		if ch.P(1, 2) {
			k.DirSeed = 1 + ch.Seed()
			vary("listing-order")
		}
		if n := ch.N(4); n > 0 {
			for i := 0; i < n*7; i++ {
				k.NewProc("x", "/", "x")
			}
			vary("pid")
		}
		if ch.P(1, 4) {
			for _, f := range srcs {
				if n := k.FS.Get(f); n != nil {
					n.MTime = int64(ch.N(1<<30)) * 1e9
				}
			}
			vary("file-times")
		}
		var sets []func(q *verifsim.Proc)
		with := func(f func(q *verifsim.Proc)) { sets = append(sets, f) }
		if ch.P(1, 4) {
			env := []string{"HOME=/root", "USER=root", "LANG=de_DE.UTF-8", "TERM=xterm", "PATH=/bin", "TZ=Asia/Tokyo", "PWD=" + p.Dir}
			with(func(q *verifsim.Proc) { q.Env = env })
			vary("environment")
		}
		if ch.P(1, 4) {
			m := 1 + ch.N(20)
			with(func(q *verifsim.Proc) { q.Machine = m })
			vary("machine-and-user")
		}
		if ch.P(1, 4) {
			x := []string{"1", "true", "80", "/opt/x", "a b=c", "0"}[ch.N(6)]
			with(func(q *verifsim.Proc) { q.AnyEnv = x })
			vary("further-variables")
		}
		if ch.P(1, 2) {
			x := ch.Seed() * 0x9e3779b97f4a7c15
			with(func(q *verifsim.Proc) { q.Rand = x })
			vary("random-state")
		}
		if ch.P(1, 2) {
			x, d := 1+ch.Seed(), []int{2, 3, 5, 9}[ch.N(4)]
			with(func(q *verifsim.Proc) { q.Noise, q.NoiseDen = x, d })
			vary("split-and-interrupted-transfers")
		}
		q := one(k, s, func(q *verifsim.Proc) {
			for _, f := range sets {
				f(q)
			}
		})
		c.shape(what)
		where := fmt.Sprintf("%q, varying %v", args[1:], what)
		if q.Thread.Hung || (q.Thread.Panic != nil) != (base.Thread.Panic != nil) || q.Code != base.Code || q.Killed != base.Killed {
			c.fail("status-differs", "%s: %s, before %s\n%s", where, q.Status(), base.Status(), tailOf(string(q.Stderr)))
		}
		now := k.FS.Snapshot()
		if q.Thread.Panic == nil {
			exists := func(f string) bool {
				if !strings.HasPrefix(f, "/") {
					f = p.Dir + "/" + f
				}
				_, a := left[f]
				_, b := now[f]
				return a || b
			}
			for i, t := range [][2]string{{string(base.Stdout), string(q.Stdout)}, {string(base.Stderr), string(q.Stderr)}} {
				if !sameText(t[0], t[1], exists) {
					c.fail("report-differs", "%s: standard %s differs: %s", where, []string{"output", "error"}[i], firstDiff(t[0], t[1]))
				}
			}
		}
		for _, f := range sortedKeys(left) {
			b, ok := now[f]
			if !ok {
				c.fail("files-differ", "%s: %s is not there, but was", where, f)
			}
			if b.Data != left[f].Data {
				c.fail("files-differ", "%s: %s differs: %s", where, f, firstDiff(left[f].Data, b.Data))
			}
		}
		for _, f := range newFiles(left, now) {
			c.fail("files-differ", "%s: %s is there, but was not", where, f)
		}
	}
}
