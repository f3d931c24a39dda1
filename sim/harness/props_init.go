//go:build go1.22

package verifharness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"MODULE/internal/verifsim"
)

func init() {
	props["C07"] = c07
	props["C08"] = c08
}

const confPath = "/proj/cddlc.json"

// initProject makes a directory as `cddlc init` finds it: without a
// configuration, perhaps with sources and other files.
func initProject(c *Ctx) *verifsim.Kernel {
	ch := c.Ch
	k := verifsim.NewKernel(c.newSim())
	if ch.P(1, 4) {
		k.DirSeed = ch.Seed()
	}
	k.FS.MkdirAll("/proj")
	k.FS.MkdirAll("/tmp")
	n := ch.N(4)
	for i := 0; i < n; i++ {
		s := genSource(ch, genOpts{rules: 1 + ch.N(2)})
		k.FS.Put(fmt.Sprintf("/proj/%s.cddl", []string{"schema", "a", "zz", "two words"}[i]), []byte(s.Text))
	}
	if ch.P(1, 3) {
		k.FS.Put("/proj/sub/inner.cddl", []byte("inner = int\n"))
	}
	for _, f := range []string{"cddlc.json.bak", ".cddlc.json.tmp", "cddlc.json.tmp", "cddlc", "README.md", "cddlc.json~"} {
		if ch.P(1, 8) {
			k.FS.Put("/proj/"+f, []byte("user's "+f))
		}
	}
	return k
}

// defaultConfig is what an undisturbed init writes.
func (c *Ctx) defaultConfig() string {
	if v, ok := c.cache["init"]; ok {
		return v
	}
	k := verifsim.NewKernel(verifsim.NewSim(c.Ch))
	k.FS.MkdirAll("/proj")
	k.FS.MkdirAll("/tmp")
	k.FS.Wipe()
	q, fs := c.pristine(k.FS, "/proj", "cddlc", "init")
	b, ok := fs.ReadFile(confPath)
	if !q.OK() || !ok {
		c.fail("init-fails", "init in an empty directory without any fault ends with %s and %v\n%s", q.Status(), ok, tailOf(string(q.Stderr)))
	}
	if c.cache == nil {
		c.cache = map[string]string{}
	}
	c.cache["init"] = string(b)
	return string(b)
}

func sameJSON(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// unchanged compares everything that existed before.
func (c *Ctx) unchanged(before, now map[string]verifsim.Entry, when string) {
	for _, f := range sortedKeys(before) {
		b, n := before[f], now[f]
		if n.ID == 0 {
			c.fail("file-removed", "%s: %s is gone", when, f)
		}
		if b.Kind != n.Kind || b.Data != n.Data || b.ID != n.ID || b.Mode != n.Mode {
			c.fail("file-changed", "%s: %s changed (%s)", when, f, firstDiff(b.Data, n.Data))
		}
	}
}

func newFiles(before, now map[string]verifsim.Entry) (out []string) {
	for _, f := range sortedKeys(now) {
		if _, ok := before[f]; !ok {
			out = append(out, f)
		}
	}
	return
}

// initOps is the call sequence of an undisturbed init.
func (c *Ctx) initOps() []verifsim.Op {
	k := verifsim.NewKernel(verifsim.NewSim(c.Ch))
	k.FS.MkdirAll("/proj")
	k.FS.MkdirAll("/tmp")
	k.FS.Wipe()
	q, _ := c.pristine(k.FS, "/proj", "cddlc", "init")
	return q.Ops
}

// C07: init never overwrites, and only one concurrent init wins.
func c07(c *Ctx) {
	ch := c.Ch
	want := c.defaultConfig()
	k := initProject(c)
	fs := k.FS
	prior := []string{"absent", "file", "empty", "directory", "dangling-symlink", "symlink", "unreadable", "read-only", "symlink-to-directory", "complete"}[ch.Weighted(9, 2, 1, 1, 1, 1, 1, 1, 1, 1)]
	switch prior {
	case "file":
		fs.Put(confPath, []byte("{\"version\":\"9\",\"builds\":[]}"))
	case "empty":
		fs.Put(confPath, nil)
	case "directory":
		fs.MkdirAll(confPath)
		if ch.P(1, 2) {
			fs.Put(confPath+"/keep", []byte("x"))
		}
	case "dangling-symlink":
		fs.Symlink(confPath, []string{"nowhere.json", "../other.json", "sub/x.json"}[ch.N(3)])
	case "symlink":
		fs.Put("/proj/real.json", []byte("user content"))
		fs.Symlink(confPath, "real.json")
	case "unreadable":
		fs.Put(confPath, []byte("secret")).Mode = 0
	case "read-only":
		fs.Put(confPath, []byte("keep me")).Mode = 0444
	case "symlink-to-directory":
		fs.MkdirAll("/proj/confd")
		fs.Symlink(confPath, "confd")
	case "complete":
		fs.Put(confPath, []byte(want))
	}
	if prior != "absent" {
		c.fault("config-present-" + prior)
	}
	fs.Wipe()
	before := fs.Snapshot()
	n := 1 + ch.Weighted(2, 4, 3, 2)
	if c.Deep && ch.P(1, 4) {
		n += ch.N(5)
	}
	ops := c.initOps()
	kinds := errorKinds
	if ch.P(1, 3) {
		kinds = append(append([]int(nil), errorKinds...), killKinds...)
	}
	var ps []*verifsim.Proc
	for i := 0; i < n; i++ {
		q := k.NewProc(fmt.Sprintf("init%d", i), "/proj", "cddlc", "init")
		if ch.P(1, 3) {
			q.Faults = planFaults(ch, ops, 2, kinds)
		}
		noise(ch, q)
		if ch.P(1, 16) {
			q.Nofile = 3 + ch.N(2)
		}
		if ch.P(1, 6) {
			q.Pid = 7
		}
		ps = append(ps, q)
		c.desc("%s with faults%s", q.Name, describeFaults(q.Faults))
	}
	c.desc("cddlc.json is %s", prior)
	mode := verifsim.SwitchNone
	if n > 1 {
		mode = verifsim.SwitchSyscall
	}
	check := func(when string) {
		now := fs.Snapshot()
		c.unchanged(before, now, when)
		won := 0
		for _, q := range ps {
			if q.Started && q.Exited && q.Code == 0 {
				won++
			}
		}
		if won > 1 {
			c.fail("two-winners", "%s: %d processes have reported success", when, won)
		}
		if won > 0 && prior == "absent" {
			if got := now[confPath]; got.Kind != verifsim.KFile || got.Data != want {
				c.fail("winner-overwritten", "%s: one init has reported success, but the configuration is not the default: %s", when, firstDiff(want, got.Data))
			}
		}
	}
	k.OnMut = func(q *verifsim.Proc, what, pth string) { check(fmt.Sprintf("after %s %s by %s", what, pth, q.Name)) }
	sw := c.St.Switches
	v := catch(func() { c.run(k, mode, ps...) })
	k.OnMut = nil
	if v != nil {
		panic(v)
	}
	if c.St.Switches > sw {
		c.fault("preemption")
	}
	won, clean := 0, true
	for _, q := range ps {
		c.crashed(q, false)
		c.shape(q.Code, q.Killed)
		c.shapeProc(q, ops)
		if q.OK() {
			won++
		}
		if q.ErrHits > 0 || q.Killed || q.Nofile < 10 {
			clean = false
		}
	}
	check("at the end")
	c.shape(prior, n)
	if prior != "absent" && won > 0 {
		c.fail("existing-config-accepted", "cddlc.json was there (%s), but init exits 0", prior)
	}
	if prior == "absent" && clean && won != 1 {
		c.fail("no-winner", "nothing failed, but %d of %d inits succeeded", won, n)
	}
	killed := false
	for _, q := range ps {
		if q.Killed || q.Unlink > 0 {
			killed = true
		}
	}
	for _, f := range newFiles(before, fs.Snapshot()) {
		if f != confPath && !killed {
			c.fail("stray-file", "init left %s", f)
		}
		if f == confPath && won == 0 && !killed {
			c.fail("failed-init-left-file", "no init succeeded or was killed, but cddlc.json is there")
		}
	}
}

// noConfig is what generate does in this directory without configuration.
func (c *Ctx) noConfig(fs *verifsim.FS) (bool, map[string]string) {
	f := fs.Clone()
	f.Remove(confPath)
	f.Wipe()
	q, after := c.pristine(f, "/proj", "cddlc", "generate")
	return q.OK(), treeOf(after)
}

func treeOf(fs *verifsim.FS) map[string]string {
	out := map[string]string{}
	for p, e := range fs.Snapshot() {
		if strings.HasPrefix(p, "/proj/") && p != confPath {
			out[p] = fmt.Sprint(e.Kind) + e.Data
		}
	}
	return out
}

// C08: success means a complete config; failure leaves nothing.
func c08(c *Ctx) {
	ch := c.Ch
	want := c.defaultConfig()
	k := initProject(c)
	fs := k.FS
	fs.Wipe()
	ops := c.initOps()
	before := fs.Snapshot()
	litter := map[string]bool{} // left by killed runs; nobody's to keep
	rounds := 1 + ch.LogN(4)
	for r := 0; r < rounds; r++ {
		kinds := [][]int{errorKinds, killKinds, powerKinds, append(append([]int(nil), errorKinds...), killKinds...)}[ch.Weighted(5, 3, 3, 2)]
		q := k.NewProc(fmt.Sprintf("init%d", r), "/proj", "cddlc", "init")
		q.Faults = planFaults(ch, ops, 3, kinds)
		noise(ch, q)
		if ch.P(1, 12) {
			q.Nofile = 3 + ch.N(2)
		}
		c.desc("%s with faults%s", q.Name, describeFaults(q.Faults))
		c.run(k, verifsim.SwitchNone, q)
		c.shapeProc(q, ops)
		c.crashed(q, false)
		late := false
		if k.Power {
			fs.PowerLoss(ch)
			k.Power = false
			c.probe("power-loss")
		} else if q.OK() {
			got, ok := fs.ReadFile(confPath)
			if !ok || !sameJSON(string(got), want) {
				c.fail("incomplete-config-reported-complete", "init exits 0, but cddlc.json is %s instead of %s", short(string(got)), short(want))
			}
			if ch.P(1, 4) { // the power fails after init has ended
				fs.PowerLoss(ch)
				late = true
				c.fault("power-loss-after-exit")
			}
		}
		now := fs.Snapshot()
		c.unchanged(before, now, "after init")
		e, have := now[confPath]
		whole := have && e.Kind == verifsim.KFile && sameJSON(e.Data, want)
		switch {
		case whole:
			c.probe("complete-config")
		case have:
			c.probe("incomplete-config")
		default:
			c.probe("no-config")
		}
		c.shape(whole, have)
		if !q.OK() && !q.Killed && q.Unlink == 0 {
			if have {
				c.fail("failed-init-left-file", "init ends with %s, but leaves a cddlc.json of %d bytes", q.Status(), len(e.Data))
			}
			for _, f := range newFiles(before, now) {
				if !litter[f] {
					c.fail("failed-init-left-file", "init ends with %s, but leaves %s", q.Status(), f)
				}
			}
		}
		if !q.OK() && !q.Killed && q.ErrHits == 0 && q.Nofile > 10 && r == 0 {
			c.fail("init-fails", "no call failed, but init ends with %s\n%s", q.Status(), tailOf(string(q.Stderr)))
		}
		if have {
			ok, tree := c.noConfig(fs)
			g, after := c.pristine(fs, "/proj", "cddlc", "generate")
			c.crashed(g, true)
			switch {
			case !whole:
				if g.OK() {
					c.fail("incomplete-config-accepted", "init was %s and left %s; generate accepts it", q.Status(), short(e.Data))
				}
				a := after.Snapshot()
				for _, f := range sortedKeys(a) {
					if b, was := now[f]; !was || b.Data != a[f].Data {
						c.fail("incomplete-config-accepted", "init was %s and left %s; generate wrote %s", q.Status(), short(e.Data), f)
					}
				}
			case g.OK() != ok:
				c.fail("defaults-differ", "generate without configuration succeeds: %v; with the configuration of init: %s\n%s", ok, g.Status(), tailOf(string(g.Stderr)))
			default:
				t := treeOf(after)
				for _, f := range sortedKeys(tree) {
					if t[f] != tree[f] {
						c.fail("defaults-differ", "with the configuration of init, generate makes another %s than without any configuration: %s", f, firstDiff(tree[f], t[f]))
					}
				}
				for _, f := range sortedKeys(t) {
					if _, x := tree[f]; !x {
						c.fail("defaults-differ", "with the configuration of init, generate makes %s; without any it does not", f)
					}
				}
			}
			if whole && q.OK() && !late {
				return
			}
			// the user removes what the killed run left
			fs.Remove(confPath)
			fs.Wipe()
		}
		// litter of a killed run stays and must not disturb the next one
		for _, f := range newFiles(before, fs.Snapshot()) {
			litter[f] = true
			c.probe("litter-of-killed-init")
		}
	}
	q := k.NewProc("retry", "/proj", "cddlc", "init")
	c.run(k, verifsim.SwitchNone, q)
	c.crashed(q, false)
	got, _ := fs.ReadFile(confPath)
	if !q.OK() || !sameJSON(string(got), want) {
		c.fail("retry-fails", "after %d disturbed attempts an undisturbed init ends with %s and leaves %s\n%s", rounds, q.Status(), short(string(got)), tailOf(string(q.Stderr)))
	}
}
