//go:build go1.22

package verifharness

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"

	"MODULE/config"
	"MODULE/internal/verifsim"
)

func init() {
	props["C25"] = c25
}

// ---- C25: configurations as a library reads and checks them ----

// confText renders what a configuration says, the way this check compares it.
func confText(c *config.Config) string {
	if c == nil {
		return "nil"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "version %q\n", c.Version)
	for _, p := range c.Plugins {
		if p == nil {
			b.WriteString("plugin nil\n")
			continue
		}
		fmt.Fprintf(&b, "plugin %q remote %q local %q\n", p.Name, p.Remote.URL, p.Local.Path)
	}
	for _, x := range c.Builds {
		if x == nil {
			b.WriteString("build nil\n")
			continue
		}
		fmt.Fprintf(&b, "build %q from %q to %q\n", x.Package, x.SourceDir, x.OutDir)
	}
	var l []string
	for k, v := range c.Options {
		l = append(l, fmt.Sprintf("option %q %T %v\n", k, v, v))
	}
	sort.Strings(l)
	return b.String() + strings.Join(l, "")
}

func confString(ch *verifsim.Chooser) string {
	return []string{"", "a", "schemas", "./x/y", "../up", "a b", "ü", "日本", "a\"b", "a\\b", "# no comment", "x: y", "- z", "1", "true", "null", "~", "{}", "a\nb", "a\tb", strings.Repeat("long ", 60)}[ch.N(21)]
}

// genConf makes up a configuration and the text of a file that says it.
func genConf(ch *verifsim.Chooser, yaml bool, plugins []string) (*config.Config, string) {
	c := &config.Config{Version: []string{"1", "2", "", "1.0"}[ch.Weighted(6, 1, 1, 1)]}
	n := ch.N(4)
	if ch.P(1, 30) {
		n = 20 + ch.N(200)
	}
	for i := 0; i < n; i++ {
		c.Builds = append(c.Builds, &config.BuildConfig{Package: confString(ch), SourceDir: confString(ch), OutDir: confString(ch)})
		if i > 0 && ch.P(1, 8) {
			x := *c.Builds[ch.N(i)]
			c.Builds[i] = &x
		}
	}
	for i := ch.N(4); i > 0; i-- {
		p := &config.Plugin{Name: confString(ch), Local: config.PluginLocal{Path: plugins[ch.N(len(plugins))]}}
		if ch.P(1, 3) {
			p.Remote.URL = confString(ch)
		}
		c.Plugins = append(c.Plugins, p)
	}
	if ch.P(1, 2) {
		c.Options = map[string]interface{}{}
		for i := ch.N(4); i > 0; i-- {
			k := []string{"tags", "x y", "Out", "ü", "version", "builds"}[ch.N(6)]
			c.Options[k] = []interface{}{"s", "", true, false, 1.5, nil, confString(ch)}[ch.N(7)]
		}
	}
	q := func(s string) string {
		b, _ := json.Marshal(s)
		return string(b)
	}
	if yaml && ch.P(2, 3) {
		s := ""
		if ch.P(1, 4) {
			s += "---\n"
		}
		if ch.P(1, 4) {
			s += "# builds: [\n"
		}
		s += "version: " + q(c.Version) + "\n"
		if len(c.Plugins) > 0 {
			s += "plugins:\n"
		}
		for _, p := range c.Plugins {
			s += "- name: " + q(p.Name) + "\n  local: {path: " + q(p.Local.Path) + "}\n"
			if p.Remote.URL != "" {
				s += "  remote:\n    url: " + q(p.Remote.URL) + "\n"
			}
		}
		if len(c.Builds) > 0 {
			s += "builds:\n"
		}
		for _, b := range c.Builds {
			s += "  - output: " + q(b.OutDir) + "\n    package: " + q(b.Package) + "\n    src: " + q(b.SourceDir) + "\n"
		}
		if len(c.Options) > 0 {
			s += "options:\n"
			for _, k := range sortedKeys(c.Options) {
				v, _ := json.Marshal(c.Options[k])
				s += "  " + q(k) + ": " + string(v) + "\n"
			}
		}
		return c, s
	}
	type jm = map[string]interface{}
	m := jm{"version": c.Version}
	bs := []jm{}
	for _, b := range c.Builds {
		bs = append(bs, jm{"package": b.Package, "src": b.SourceDir, "output": b.OutDir})
	}
	ps := []jm{}
	for _, p := range c.Plugins {
		ps = append(ps, jm{"name": p.Name, "local": jm{"path": p.Local.Path}, "remote": jm{"url": p.Remote.URL}})
	}
	m["builds"], m["plugins"] = bs, ps
	if c.Options != nil {
		m["options"] = c.Options
	}
	j, _ := json.MarshalIndent(m, "", []string{"", " ", "  "}[ch.N(3)])
	return c, string(j) + []string{"", "\n", "\n\n"}[ch.N(3)]
}

// spoil makes a configuration undecodable, whatever it says.
func spoil(ch *verifsim.Chooser, text string, yaml bool) string {
	if yaml {
		return []string{"builds: [", "- a\n- b\n", "just a string\n", "version: \"1\n", "builds: 7\n", "plugins: x\n", "options: [1]\n", text + "\x00", "builds:\n- {package: \"a\n", "\tversion: 1\n", text + "---\nversion: \"2\"\n"}[ch.N(11)]
	}
	t := strings.TrimSpace(text)
	switch ch.N(5) {
	case 0, 1:
		return t[:ch.N(len(t))]
	case 2:
		return t + []string{"}", "x", "{}", ",", "\x00"}[ch.N(5)]
	case 3:
		return "{\"builds\": 7, " + t[1:]
	}
	return []string{"", "[]", "7", "\"x\"", "{\"version\": 1}", "{\"builds\": [1]}", "{\"plugins\": {}}", "{\"options\": []}", "\x00\x00\x00", "version: \"1\"\n"}[ch.N(10)]
}

func c25(c *Ctx) {
	ch := c.Ch
	k := verifsim.NewKernel(c.newSim())
	fs := k.FS
	// what plugins may point to
	fs.MkdirAll("/w/plug/a")
	fs.MkdirAll("/w/plug/b")
	fs.MkdirAll("/opt/plug")
	fs.MkdirAll("/w/locked/in")
	fs.Get("/w/locked").Mode = 0
	fs.Put("/w/plug/file", []byte("x"))
	fs.Put("/w/plug/empty", nil)
	fs.Symlink("/w/plug/link", "a")
	fs.Symlink("/w/plug/tofile", "file")
	fs.Symlink("/w/plug/dangling", "nowhere")
	fs.Symlink("/w/plug/loop", "loop")
	there := map[string]bool{"plug/a": true, "plug/b": true, "/opt/plug": true, "plug/link": true, ".": true, "./plug/../plug/b/": true,
		"plug/file": false, "plug/empty": false, "plug/tofile": false, "plug/dangling": false, "plug/loop": false, "plug/none": false, "": false, "locked/in": false, "plug/a/none": false, "plug/file/x": false}
	good, all := []string{}, sortedKeys(there)
	for _, f := range all {
		if there[f] {
			good = append(good, f)
		}
	}
	type version struct{ text string } // "" = must not be loaded
	type file struct {
		path     string
		real     string // where a link leads
		versions []version
		texts    []string
		conf     *config.Config
		fixed    bool // never usable, whatever it holds
	}
	var files []*file
	for i := 1 + ch.N(3); i > 0; i-- {
		yaml := ch.P(1, 2)
		f := &file{path: fmt.Sprintf("/w/p%d/cddlc.json", i)}
		if yaml {
			f.path = fmt.Sprintf("/w/p%d/cddlc.yaml", i)
		}
		for n := 1 + ch.Weighted(3, 1, 1); n > 0; n-- {
			from := all
			if ch.P(1, 2) {
				from = good
			}
			conf, text := genConf(ch, yaml, from)
			v := version{confText(conf)}
			if ch.P(1, 4) {
				v.text, text = "", spoil(ch, text, yaml)
			}
			f.versions, f.texts = append(f.versions, v), append(f.texts, text)
			f.conf = conf
		}
		fs.MkdirAll(path.Dir(f.path))
		switch ch.Weighted(12, 1, 1, 1, 1, 1, 1) {
		case 1:
			f.fixed = true
			fs.MkdirAll(f.path)
		case 2:
			f.fixed = true
		case 3:
			f.fixed = true
			f.path = path.Dir(f.path) + "/" + []string{"cddlc.yml", "cddlc.toml", "cddlc.JSON", "cddlc", "conf.json", "cddlc.json.bak", "xcddlc.yaml"}[ch.N(7)]
			fs.Put(f.path, []byte(f.texts[0]))
		case 4:
			f.fixed = true
			fs.Put(f.path, []byte(f.texts[0]))
			fs.Get(f.path).Mode = 0
		case 5:
			f.real = fmt.Sprintf("/srv/real%d.x", i)
			fs.Put(f.real, []byte(f.texts[0]))
			fs.Symlink(f.path, f.real)
		case 6:
			f.fixed = true
			fs.Symlink(f.path, []string{"gone", path.Base(f.path)}[ch.N(2)])
		default:
			fs.Put(f.path, []byte(f.texts[0]))
		}
		if f.fixed {
			f.versions, f.texts = []version{{}}, f.texts[:1]
		}
		files = append(files, f)
	}
	fs.Wipe()
	p := k.NewProc("caller", "/w", "caller")
	if ch.P(1, 2) {
		for n := 1 + ch.N(2); n > 0; n-- {
			p.Faults = append(p.Faults, verifsim.Fault{At: ch.LogN(40), K: errorKinds[ch.N(len(errorKinds))], Arg: ch.N(1000)})
		}
		sort.SliceStable(p.Faults, func(i, j int) bool { return p.Faults[i].At < p.Faults[j].At })
	}
	noise(ch, p)
	if ch.P(1, 20) {
		p.Nofile = 3 + ch.N(3)
	}
	base := confText(config.NewDefaultConfig())
	callers := 1 + ch.Weighted(3, 3, 1, 1)
	s := k.Sim
	if callers > 1 || ch.P(1, 2) {
		s.Mode = []int{verifsim.SwitchSyscall, verifsim.SwitchStmt}[ch.N(2)]
		s.GapMax = []int{1, 3, 12, 200}[ch.N(4)]
		if ch.P(1, 2) {
			s.Dense, s.MaxSw = true, 2000
		}
	}
	seed := ch.Seed()
	busy := 0 // callers at work
	alone := callers == 1
	lastStat := map[string]syscall.Errno{}
	k.OnOp = func(x *verifsim.Proc, what, pth string, e syscall.Errno) {
		if x == p && pth != "" && e != syscall.EINTR {
			lastStat[pth] = e
		}
	}
	k.OnMut = func(_ *verifsim.Proc, what, pth string) {
		c.fail("disk-changed", "reading or checking a configuration changes the disk: %s %s", what, pth)
	}
	var ts []*verifsim.Thread
	type finding struct{ class, text string }
	var found []finding
	report := func(class, f string, a ...any) { found = append(found, finding{class, fmt.Sprintf(f, a...)}) }
	loads, checks := 0, 0
	body := func(me int) {
		busy++
		defer func() { busy-- }()
		for n := 1 + int(verifsim.Mix(uint64(me)^seed)%5); n > 0; n-- {
			h := verifsim.Mix(seed ^ uint64(me*100+n))
			f := files[h%uint64(len(files))]
			switch h >> 8 % 8 {
			case 0: // the default, which the caller may change as it likes
				d := config.NewDefaultConfig()
				if t := confText(d); t != base {
					report("default-changed", "the default configuration is not what it was:\n%s\nbut\n%s", base, t)
				}
				d.Version = "9"
				for _, b := range d.Builds {
					b.Package, b.OutDir = "mine", "elsewhere"
				}
				d.Builds = append(d.Builds, &config.BuildConfig{Package: "more"})
				continue
			case 1: // checking one that was never loaded
				conf := f.conf
				checks++
				checkValid(p, conf, there, alone, lastStat, report)
				continue
			}
			hits := p.ErrHits
			conf, err := config.LoadConfig(f.path)
			loads++
			got := confText(conf)
			var texts []string
			usable, hopeless := true, true
			match := false
			for _, v := range f.versions {
				usable = usable && v.text != ""
				hopeless = hopeless && v.text == ""
				match = match || v.text != "" && v.text == got
				texts = append(texts, v.text)
			}
			switch {
			case err == nil && hopeless:
				report("unusable-loaded", "%s cannot be used (%q), but is loaded as\n%s", f.path, f.texts, got)
				continue
			case err == nil && !match:
				report("not-what-it-says", "%s holds %q, but is loaded as\n%s", f.path, f.texts, got)
				continue
			case err != nil && usable && p.ErrHits == hits && (alone || p.ErrHits == 0):
				report("usable-refused", "%s holds %q and no call failed, but LoadConfig says: %v", f.path, f.texts, err)
				continue
			}
			if err != nil || conf == nil {
				continue
			}
			checks++
			checkValid(p, conf, there, alone, lastStat, report)
			if got2 := confText(conf); got2 != got {
				report("changed-later", "checking %s or loading another configuration has changed it from\n%s\nto\n%s", f.path, got, got2)
			}
			if h>>16%2 == 0 { // it is the caller's now
				conf.Version = "mine"
				for _, b := range conf.Builds {
					b.Package += "!"
				}
				for _, x := range conf.Plugins {
					x.Local.Path += "!"
				}
				if conf.Options != nil {
					conf.Options["mine"] = true
				}
			}
		}
	}
	size := uint64(fs.Size())
	for i := 0; i < callers; i++ {
		ts = append(ts, s.Go(fmt.Sprintf("caller%d", i), p, 30_000_000+3000*size, func() { body(i) }))
	}
	p.Thread, p.Started = ts[0], true
	multi := false
	for _, f := range files {
		multi = multi || len(f.versions) > 1
	}
	if multi {
		s.Go("editor", nil, 0, func() {
			for _, f := range files {
				for _, t := range f.texts[1:] {
					for i := 0; i < 1+int(verifsim.Mix(seed^uint64(len(t)))%9); i++ {
						verifsim.Point()
					}
					real := f.path
					if n := fs.Get(f.path); n != nil && n.Kind == verifsim.KLink {
						real = f.real
					}
					fs.Remove(real)
					fs.Put(real, []byte(t))
					s.Note("editor: %s replaced", real)
					if busy > 0 {
						c.fault("config-replaced-during-call")
					}
				}
			}
		})
	}
	for _, f := range files {
		c.desc("%s holds %q", f.path, f.texts)
	}
	c.desc("%d callers, faults%s", callers, describeFaults(p.Faults))
	clock := k.Clock
	dead := s.Run()
	c.St.SimNs += k.Clock - clock
	k.OnOp, k.OnMut = nil, nil
	c.done(s)
	c.bookProcs(p)
	if dead {
		c.fail("deadlock", "callers wait for each other for ever")
	}
	if s.Switch > 0 && callers > 1 {
		c.fault("preemption")
	}
	c.shape(callers, len(files), loads, checks, p.ErrHits)
	for i, t := range ts {
		c.libCrashed(t, fmt.Sprintf("caller %d of %d", i, callers), "")
	}
	for _, f := range found {
		c.fail(f.class, "%s", f.text)
	}
	if n := p.OpenFiles(); n > 0 && p.CloseEr == 0 {
		c.fail("left-open", "after %d loads %d files are still open", loads, n)
	}
}

// checkValid calls Valid and compares it with what is on the disk.
func checkValid(p *verifsim.Proc, conf *config.Config, there map[string]bool, alone bool, last map[string]syscall.Errno, report func(string, string, ...any)) {
	want, paths := true, []string{}
	for _, x := range conf.Plugins {
		want = want && there[x.Local.Path]
		paths = append(paths, x.Local.Path)
		delete(last, x.Local.Path)
	}
	hits := p.ErrHits
	err := conf.Valid()
	switch {
	case err == nil && !want:
		report("missing-plugin-accepted", "Valid accepts plugins at %q", paths)
	case err != nil && want && p.ErrHits == hits && (alone || p.ErrHits == 0):
		report("plugin-refused", "all of the plugins at %q are directories and no call failed, but Valid says: %v", paths, err)
	case err == nil && alone:
		for _, x := range paths {
			if e, ok := last[x]; ok && e != 0 {
				report("lookup-failure-ignored", "Valid accepts the plugin at %q although looking it up failed: %v", x, e)
			}
		}
	}
}
