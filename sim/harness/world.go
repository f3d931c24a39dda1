//go:build go1.22

package verifharness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"unicode"

	"MODULE/internal/verifsim"
)

// Build is one configured build.
type Build struct {
	Pkg, Src, Out string
}

// SrcFile is one source of a project.
type SrcFile struct {
	Path string // absolute
	S    *Source
	Bad  bool // does not parse, by construction
	Rich bool // uses more of the language than code may exist for
	Text string
}

// Project is a simulated working tree.
type Project struct {
	K       *verifsim.Kernel
	Dir     string
	Builds  []Build
	Conf    string // "", "json", "yaml", "both"
	Sources map[string]*SrcFile
	Args    []string
}

func (p *Project) abs(rel string) string {
	if !strings.HasPrefix(rel, "/") {
		rel = p.Dir + "/" + rel
	}
	return p.K.FS.Real(rel)
}

// outputs maps each output path to its source, by the configuration.
func (p *Project) outputs() map[string]*SrcFile {
	m := map[string]*SrcFile{}
	for _, b := range p.Builds {
		sd, od := p.abs(b.Src), p.abs(b.Out)
		for _, sp := range sortedKeys(p.Sources) {
			if path.Dir(sp) == sd && strings.HasSuffix(sp, ".cddl") {
				m[path.Join(od, strings.TrimSuffix(path.Base(sp), ".cddl")+".go")] = p.Sources[sp]
			}
		}
	}
	return m
}

func (p *Project) pkgOf(out string) string {
	for _, b := range p.Builds {
		if p.abs(b.Out) == path.Dir(out) {
			sd := p.abs(b.Src)
			if p.Sources[path.Join(sd, strings.TrimSuffix(path.Base(out), ".go")+".cddl")] != nil {
				return b.Pkg
			}
		}
	}
	return ""
}

func jsonConfig(bs []Build, extra bool) string {
	type b struct {
		Package string `json:"package"`
		Src     string `json:"src"`
		Output  string `json:"output"`
	}
	var l []b
	for _, x := range bs {
		l = append(l, b{x.Pkg, x.Src, x.Out})
	}
	if l == nil {
		l = []b{}
	}
	m := map[string]any{"version": "1", "plugins": []any{}, "builds": l}
	if extra {
		m["options"] = map[string]any{"x": 1}
	}
	j, _ := json.MarshalIndent(m, "", "  ")
	return string(j) + "\n"
}

// styled writes a configuration in one of the ways people write them.
func (p *Project) styled(ch *verifsim.Chooser, yaml bool) string {
	if !yaml {
		text := jsonConfig(p.Builds, ch.P(1, 4))
		switch ch.Weighted(8, 1, 1, 1, 1, 1) {
		case 1: // on one line
			var b bytes.Buffer
			if json.Compact(&b, []byte(text)) == nil {
				return b.String()
			}
		case 2:
			return strings.ReplaceAll(text, "\n", "\r\n")
		case 3: // the builds first
			j, _ := json.Marshal(p.Builds)
			j = []byte(strings.NewReplacer(`"Pkg":`, `"package":`, `"Src":`, `"src":`, `"Out":`, `"output":`).Replace(string(j)))
			return fmt.Sprintf("{\"builds\": %s, \"version\": \"1\"}", j)
		case 4: // with a plugin
			return strings.Replace(text, `"plugins": []`, `"plugins": [{"name": "x", "local": {"path": "."}, "remote": {"url": "http://localhost/x"}}]`, 1)
		case 5: // all but ASCII escaped
			t := ""
			for _, r := range text {
				if r < 128 {
					t += string(r)
				} else {
					t += fmt.Sprintf("\\u%04x", r)
				}
			}
			return t
		}
		return text
	}
	text := yamlConfig(p.Builds)
	if len(p.Builds) == 0 {
		return text
	}
	switch ch.Weighted(8, 1, 1, 1, 1, 1, 1) {
	case 1: // flow style
		t := "{version: '1', builds: ["
		for i, b := range p.Builds {
			if i > 0 {
				t += ", "
			}
			t += fmt.Sprintf("{package: %q, src: %q, output: %q}", b.Pkg, b.Src, b.Out)
		}
		return t + "]}"
	case 2:
		return strings.ReplaceAll(text, "\n", "\r\n")
	case 3:
		return "\ufeff" + text
	case 4:
		return "%YAML 1.1\n---\n# the builds\n" + text + "...\n"
	case 5: // single quotes, keys in another order
		t := "builds:\n"
		for _, b := range p.Builds {
			t += fmt.Sprintf("- output: '%s'   # where to\n  package: '%s'\n  src: '%s'\n", b.Out, b.Pkg, b.Src)
		}
		return t + "options:\n  deep: [1, {a: b}]\nversion: '1'\n"
	case 6: // a package named once and referred to
		t := "version: \"1\"\nbuilds:\n"
		seen := map[string]string{}
		for i, b := range p.Builds {
			ref := fmt.Sprintf("&p%d %q", i, b.Pkg)
			if a := seen[b.Pkg]; a != "" {
				ref = "*" + a
			} else {
				seen[b.Pkg] = fmt.Sprintf("p%d", i)
			}
			t += fmt.Sprintf("  - package: %s\n    src: %q\n    output: %q\n", ref, b.Src, b.Out)
		}
		return t
	}
	return text
}

func yamlConfig(bs []Build) string {
	s := "version: \"1\"\nplugins: []\nbuilds:\n"
	if len(bs) == 0 {
		s = "version: \"1\"\nbuilds: []\n"
	}
	for _, b := range bs {
		s += fmt.Sprintf("  - package: %q\n    src: %q\n    output: %q\n", b.Pkg, b.Src, b.Out)
	}
	return s
}

// padded makes a configuration longer without changing what it says.
func padded(ch *verifsim.Chooser, text string, yaml bool) string {
	if !ch.P(1, 10) {
		return text
	}
	lines := strings.SplitAfter(text, "\n")
	if len(lines) < 4 {
		return text
	}
	at := 1 + ch.N(len(lines)-1)
	unit := "          \n"
	if yaml {
		unit = "  # comment\n"
	}
	pad := strings.Repeat(unit, 1+ch.LogN(12000))
	return strings.Join(lines[:at], "") + pad + strings.Join(lines[at:], "")
}

func (p *Project) writeConfig(ch *verifsim.Chooser) {
	switch p.Conf {
	case "json":
		p.K.FS.Put(p.Dir+"/cddlc.json", []byte(padded(ch, p.styled(ch, false), false)))
	case "yaml":
		p.K.FS.Put(p.Dir+"/cddlc.yaml", []byte(padded(ch, p.styled(ch, true), true)))
	case "both":
		p.K.FS.Put(p.Dir+"/cddlc.json", []byte(padded(ch, p.styled(ch, false), false)))
		p.K.FS.Put(p.Dir+"/cddlc.yaml", []byte(yamlConfig([]Build{{"decoy", ".", "decoy"}})))
	}
}

// projOpts selects the shape of a project.
type projOpts struct {
	maxBuilds, maxSources int
	badSource             int // one source in that many does not parse; 0 = none
	rich                  int // one source in that many uses the whole language; 0 = none
	forceConf             bool
	priorNone             bool
	rules                 int
	plain                 bool // no distractors
	many                  int  // one project in that many has a lot of sources; 0 = none
}

var fileNames = []string{"schema", "a", "", "x.cddl", "with space", "types", "user-model", "b.v2", "zz", "Common", "m1", "m2", "m3", "m4"}

// oddNames are names that patterns, shells, formats and libraries of other
// systems treat in their own way; for a file system they are names like others.
var oddNames = []string{"[x]", "a*b", "100%d", "%s", "-o", ".hidden", "\u00fcn\u00ef", "trail ", " lead", "back\\slash", "a\tb", "$HOME", "${x}", "~", "~u", "a.go", "x_test", "x_linux", "a:b", "it's \"q\"", "\xff\xfe", "new\nline", "a,b;c", "{a,b}", "?", "nul", "x.cddl.go", "..", "...", "schema.", "#x", "a&b<c>", "\u202e\u0301"}

var oddDirs = []string{"de$s", "~x", "[ab]", "50%d", "\u00fcn\u00ef/c\u00f6d", "-src", "a*b", "with space/x", ".hidden", "...", "x,y", "{a}", "a&b<c>", "?", "cddlc.d", "vendor", "testdata", "node_modules/x", "_x", "internal", "s#1"}

// breakers turn a good source into one that does not parse.
var breakers = []string{"\nbroken = (a: int", "\nbroken = [ int )", "\nbroken = ", "\nbroken = { a: tstr", "\nbroken tstr", "\n) = int", "\nbroken = \"open\nx = int", "\nbroken = int }"}

// beyond are valid rules, with references, some of which code may not be
// generated for.
var beyond = []string{"x = { a: int }", "x = int .lt 5", "x = 1..5", "x = 1.5...2.5", "x = #6.1(int)", "x = ~%s", "x = float", "x = float32", "x = nint", "x = bstr", "x = int / tstr", "x = tstr // int",
	"x = \"text\"", "x = tstr .regexp \"[a-z]\"", "x = &(a: 1, b: 2)", "x = [ a: { b: int } ]", "x = [ a: int / tstr ]", "x = [ a: 1 ]", "x = [ * a: int ]", "x = [ ? int ]", "x = [ a: float ]", "x = ( int )", "x = [ int, tstr ]",
	"x = [ 1*2 int ]", "x = [ 1: int ]", "x = $y", "x = [ * ( a: int ) ]", "x = [ a: [ b: %s, ? c: 1..2 ] ]", "x = uint .size 4"}

func newProject(c *Ctx, o projOpts) *Project {
	ch := c.Ch
	sim := c.newSim()
	k := verifsim.NewKernel(sim)
	p := &Project{K: k, Dir: []string{"/proj", "/home/u/work/my proj", "/home/u/[x] 50%d/$HOME/~w"}[ch.Weighted(4, 4, 1)], Sources: map[string]*SrcFile{}, Args: []string{"/usr/bin/cddlc", "generate"}}
	if ch.P(1, 4) {
		p.Args[1] = "gen"
	}
	k.PidReuse = ch.P(1, 4)
	k.FS.MkdirAll(p.Dir)
	k.FS.MkdirAll("/tmp")
	p.Conf = []string{"", "json", "yaml", "both"}[ch.Weighted(3, 4, 3, 1)]
	if o.forceConf && p.Conf == "" {
		p.Conf = "json"
	}
	if p.Conf == "" {
		p.Builds = []Build{{"", ".", "dist/"}}
	} else {
		n := 1 + ch.LogN(o.maxBuilds)
		srcs := []string{".", "schema", "api/v1", "./defs/", p.Dir + "/abs"}
		odd := ch.P(1, 6)
		if odd {
			at := ch.N(len(oddDirs))
			srcs = append(srcs[:ch.N(len(srcs)+1)], oddDirs[at], oddDirs[(at+7)%len(oddDirs)], oddDirs[(at+13)%len(oddDirs)])
			c.probe("odd-directory-name")
		}
		for i := 0; i < n; i++ {
			b := Build{Pkg: []string{"lib", "models", "pkg1"}[ch.N(3)]}
			if i > 0 && ch.P(1, 6) { // the sources of another build once more
				b.Src, b.Out = p.Builds[ch.N(i)].Src, fmt.Sprintf("again%d", i)
				p.Builds = append(p.Builds, b)
				continue
			}
			s := ch.N(len(srcs))
			b.Src = srcs[s]
			srcs = append(srcs[:s], srcs[s+1:]...)
			if len(srcs) == 0 {
				n = i + 1
			}
			switch ch.N(5) {
			case 0:
				b.Out = fmt.Sprintf("gen%d", i)
			case 1:
				b.Out = fmt.Sprintf("out/go/p%d/", i)
			case 2:
				b.Out = b.Src
			case 3:
				b.Out = "shared"
			case 4:
				b.Out = fmt.Sprintf("%s/absout%d", p.Dir, i)
			}
			if odd && ch.P(1, 2) {
				b.Out = fmt.Sprintf("%s%d", oddDirs[ch.N(len(oddDirs))], i)
			}
			p.Builds = append(p.Builds, b)
		}
	}
	p.writeConfig(ch)
	if p.Conf != "" && ch.P(1, 12) {
		p.linkDirs(c)
	}
	taken := map[string]bool{}
	last := ""
	for bi, b := range p.Builds {
		if strings.HasPrefix(b.Out, "again") {
			continue
		}
		sd := p.abs(b.Src)
		k.FS.MkdirAll(sd)
		n := 1 + ch.LogN(o.maxSources)
		for i := 0; i < n; i++ {
			var name string
			for {
				name = fileNames[ch.N(len(fileNames))]
				if ch.P(1, 12) {
					name = oddNames[ch.N(len(oddNames))]
					c.probe("odd-file-name")
				} else if ch.P(1, 40) { // as long as names can be
					name = strings.Repeat("n", 250-ch.LogN(20))
					c.probe("longest-file-name")
				}
				if last != "" && ch.P(1, 25) { // the name of another source, but for its case
					name = swapCase(last)
				}
				last = name
				if taken[p.abs(b.Out)+"/"+name] || taken[sd+"/"+name] {
					name = fmt.Sprintf("f%d_%d", bi, i)
				}
				break
			}
			taken[p.abs(b.Out)+"/"+name] = true
			taken[sd+"/"+name] = true
			p.addSource(c, sd+"/"+name+".cddl", o)
		}
		if !o.plain {
			// distractors that must stay as they are
			for _, d := range []string{"notes.txt", "old.cddl.bak", "readme.md", "helper.go", "x.cddlx", "UPPER.CDDL", "cddl"} {
				if ch.P(1, 4) {
					k.FS.Put(sd+"/"+d, []byte("keep "+d))
				}
			}
			if ch.P(1, 4) { // these would even parse
				for i := 1 + ch.N(3); i > 0; i-- {
					d := []string{"X.CDDL", "Other.Cddl", "y.cddl~", ".y.cddl.swp", "y.cdd", "y.cddl.tmp", "ycddl", "y.cddl ", "y.cddl.orig", "#y.cddl#", "y.cddlc", "y.cddl.go.txt", "cddlc.tmp", ".cddlc-tmp"}[ch.N(14)]
					k.FS.Put(sd+"/"+d, []byte("stray = int\n"))
				}
			}
			if ch.P(1, 5) {
				k.FS.Put(sd+"/sub/inner.cddl", []byte("inner = int\n"))
			}
			if sd != p.Dir && ch.P(1, 12) { // a configuration, but not in the working directory
				k.FS.Put(sd+"/cddlc."+[]string{"json", "yaml"}[ch.N(2)], []byte(jsonConfig([]Build{{"wrong", ".", "wrong"}}, false)))
			}
		}
	}
	if !o.plain {
		k.FS.Put("/etc/outside.conf", []byte("outside"))
		if ch.P(1, 4) {
			k.FS.Put(p.Dir+"/cddlc.cddlx", []byte("x"))
		}
		p.strayConfigs(c, 20)
	}
	if !o.priorNone {
		// earlier outputs and hand-written neighbours in the output directories
		outs := p.outputs()
		for _, op := range sortedKeys(outs) {
			if ch.P(1, 2) {
				prior := "package old\n\n// an earlier output\n" + strings.Repeat("// old line\n", ch.LogN(60))
				k.FS.Put(op, []byte(prior))
			}
		}
		if !o.plain {
			for _, b := range p.Builds {
				if ch.P(1, 3) {
					k.FS.Put(p.abs(b.Out)+"/handwritten_x.go", []byte("package keep\n"))
				}
			}
		}
	}
	if o.many > 0 && ch.P(1, o.many) {
		p.addMany(c, 1+ch.LogN(1100))
	}
	p.times(c)
	k.FS.Wipe()
	c.desc("project %s: config=%q builds=%v sources=%d", p.Dir, p.Conf, p.Builds, len(p.Sources))
	return p
}

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if u := unicode.ToUpper(r); u != r {
			return u
		}
		return unicode.ToLower(r)
	}, s)
}

// strayConfigs puts configurations where other tools would look for them.
func (p *Project) strayConfigs(c *Ctx, den int) {
	ch := c.Ch
	for _, f := range []string{path.Dir(p.Dir) + "/cddlc.json", path.Dir(p.Dir) + "/cddlc.yaml", "/cddlc.json", "/root/cddlc.json", "/home/u/cddlc.yaml", "/home/u/.config/cddlc/cddlc.json", "/root/.config/cddlc.json", "/etc/cddlc.json", "/etc/cddlc/cddlc.json", "/usr/bin/cddlc.json", p.Dir + "/.cddlc.json", p.Dir + "/config/cddlc.json", p.Dir + "/.cddlc/cddlc.json", p.Dir + "/.config/cddlc.json"} {
		if ch.P(1, den) && p.K.FS.Get(f) == nil {
			p.K.FS.Put(f, []byte([]string{jsonConfig([]Build{{"wrong", p.Dir, p.Dir + "/wrong"}}, false), "\x00 not a configuration"}[ch.Weighted(3, 1)]))
			c.fault("stray-configuration")
		}
	}
}

// linkDirs makes source and output directories symbolic links to directories.
func (p *Project) linkDirs(c *Ctx) {
	ch := c.Ch
	fs := p.K.FS
	for i, b := range p.Builds {
		for _, d := range []string{b.Src, b.Out} {
			d = strings.Trim(d, "./")
			if d == "" || strings.Contains(d, "/") || fs.Get(p.Dir+"/"+d) != nil || !ch.P(1, 2) {
				continue
			}
			to := fmt.Sprintf("/srv/real%d/%s", i, d)
			if ch.P(1, 2) {
				to = fmt.Sprintf("real%d/%s", i, d)
				fs.MkdirAll(p.Dir + "/" + to)
			} else {
				fs.MkdirAll(to)
			}
			fs.Symlink(p.Dir+"/"+d, to)
			c.probe("linked-directory")
		}
	}
}

// times gives sources and earlier outputs modification times in any order.
func (p *Project) times(c *Ctx) {
	ch := c.Ch
	if !ch.P(1, 2) {
		return
	}
	outs := p.outputs()
	set := func(f string, bias int) {
		n := p.K.FS.Get(f)
		if n == nil {
			return
		}
		n.MTime = int64(ch.N(7)+bias-6) * 3600e9 * int64(1+ch.N(50))
		if ch.P(1, 10) {
			n.MTime = int64(1+ch.N(1000)) * 86400e9 // in the future
		}
	}
	for _, f := range sortedKeys(p.Sources) {
		set(f, -2)
	}
	for _, f := range sortedKeys(outs) {
		set(f, 2)
	}
}

// earlier puts earlier outputs in place that look like what generate would
// write: the code of another version, the present code cut off or followed by
// something, or with one byte changed.
func (p *Project) earlier(c *Ctx, want map[string]string) {
	ch := c.Ch
	if !ch.P(1, 2) {
		return
	}
	outs := p.outputs()
	keys := sortedKeys(outs)
	if len(keys) > 40 {
		keys = keys[:40]
	}
	for _, op := range keys {
		w := want[op]
		if w == "" || !ch.P(1, 2) {
			continue
		}
		b := []byte(w)
		switch ch.N(9) {
		case 6: // edited by hand
			b = editedByHand(ch, w)
		case 7: // another version written by the same command
			if x := c.alone(p, p.pkgOf(op), outs[op].S.Text+"\n; changed\nadded-later = int\n"); x != "" {
				b = []byte(x)
			}
		case 8: // read-only
			b = editedByHand(ch, w)
			p.K.FS.Put(op, b).Mode = 0444
			continue
		case 0: // of another version
			if x := c.alone(p, p.pkgOf(op), genSource(ch, genOpts{}).Text); x != "" {
				b = []byte(x)
			}
		case 1:
			b = b[:ch.N(len(b))]
		case 2:
			b = append(b, []string{"}\n", "\n", "// x\n", "\x00\x00\x00"}[ch.N(4)]...)
		case 3: // same length
			b[ch.N(len(b))] ^= 1
		case 4: // of another package
			if x := c.alone(p, "other", outs[op].Text); x != "" {
				b = []byte(x)
			}
		case 5: // up to date
		}
		p.K.FS.Put(op, b)
	}
	p.times(c)
	p.K.FS.Wipe()
}

// editedByHand changes an output the way people and their tools do.
func editedByHand(ch *verifsim.Chooser, w string) []byte {
	switch ch.N(8) {
	case 0:
		return []byte(strings.ReplaceAll(w, "\n", "\r\n"))
	case 1:
		return []byte(strings.ToLower(w))
	case 2:
		return []byte("\ufeff" + w)
	case 3:
		return []byte(w + "\n// user code\nfunc Mine() {}\n// end user code\n")
	case 4:
		return []byte(strings.ReplaceAll(w, "\t", "    "))
	case 5:
		return []byte(strings.Replace(w, ". DO NOT EDIT", ". Edited", 1))
	case 6:
		return []byte("//go:build ignore\n\n" + w)
	}
	return []byte(strings.ReplaceAll(w, "\n", ""))
}

// addMany adds small sources, many of them of one kind.
func (p *Project) addMany(c *Ctx, n int) {
	ch := c.Ch
	kind := ch.Weighted(6, 1, 1, 1, 1, 1)
	old := ch.Weighted(3, 1, 1)
	pad := "; " + strings.Repeat("x", 600+ch.LogN(4000)) + "\n"
	for i := 0; i < n; i++ {
		b := p.Builds[0]
		if i%3 > 0 {
			b = p.Builds[ch.N(len(p.Builds))]
		}
		f := fmt.Sprintf("%s/many%03d.cddl", p.abs(b.Src), i)
		s := &Source{Text: fmt.Sprintf("many-%d = int\n", i), Rules: []RuleInfo{{Name: fmt.Sprintf("many-%d", i), Decl: []string{fmt.Sprintf("type Many%d int", i)}}}}
		link, sizeless := false, false
		switch k := kind; {
		case k == 0 || ch.P(1, 5):
		case k == 1:
			s = &Source{Text: []string{"", "\n", "; nothing yet\n"}[ch.N(3)]}
		case k == 2:
			s.Text = pad + s.Text
		case k == 3:
			link = true
		case k == 4:
			sizeless = true
		case k == 5:
			s.Text = strings.ReplaceAll(s.Text, "\n", "\r\n")
		}
		p.Sources[f] = &SrcFile{Path: f, Text: s.Text, S: s}
		real := fmt.Sprintf("/srv/defs/many%03d", i)
		if link && p.K.FS.Get(real) == nil {
			p.K.FS.Put(real, []byte(s.Text))
			p.K.FS.Remove(f)
			p.K.FS.Symlink(f, real)
		} else {
			p.K.FS.Put(f, []byte(s.Text)).Sizeless = sizeless
		}
		if old > 0 {
			op := fmt.Sprintf("%s/many%03d.go", p.abs(b.Out), i)
			switch {
			case ch.P(1, 5):
			case old == 1:
				p.K.FS.Put(op, []byte("package old\n\n// an earlier output\n"))
			default:
				p.K.FS.Put(op, nil)
			}
		}
	}
}

func (p *Project) addSource(c *Ctx, full string, o projOpts) *SrcFile {
	ch := c.Ch
	s := genSource(ch, genOpts{comments: true, rules: o.rules})
	if ch.P(1, 24) { // no rules at all
		s = &Source{Text: []string{"", "\n", "; nothing yet\n", " \n\t\n", "; nothing yet", "\r\n"}[ch.N(6)]}
		c.probe("source-without-rules")
	}
	if ch.P(1, 120) {
		s.bulk(ch, c.Deep)
		c.probe("large-source")
	}
	if ch.P(1, 400) { // a licence, a change log
		s.Text = strings.Repeat("; "+strings.Repeat("x", ch.N(100))+"\n", ch.LogN(25000)) + s.Text
		c.probe("long-comment")
	}
	f := &SrcFile{Path: full, S: s, Text: s.Text}
	if o.rich > 0 && ch.P(1, o.rich) {
		f.enrich(ch)
		c.probe("source-beyond-the-generator")
	}
	if o.badSource > 0 && ch.P(1, o.badSource) {
		f.Bad = true
		f.Text += breakers[ch.N(len(breakers))]
		if ch.P(1, 2) {
			f.Text += "\n"
		}
	}
	p.Sources[full] = f
	if ch.P(1, 16) { // the source is a symbolic link
		real := "/srv/defs/" + path.Base(full) + ".src"
		if len(path.Base(full)) < 200 && p.K.FS.Get(real) == nil {
			p.K.FS.Put(real, []byte(f.Text))
			p.K.FS.Remove(full)
			p.K.FS.Symlink(full, real)
			c.probe("linked-source")
			return f
		}
	}
	n := p.K.FS.Put(full, []byte(f.Text))
	if ch.P(1, 40) {
		n.Sizeless = true
		c.fault("file-size-not-reported")
	}
	return f
}

// bulk makes a source large.
func (s *Source) bulk(ch *verifsim.Chooser, deep bool) {
	n := 300 + ch.LogN(3000)
	if deep {
		n = 300 + ch.LogN(30000)
	}
	pad := strings.Repeat("x", ch.LogN(100))
	var b strings.Builder
	b.WriteString(s.Text)
	if !strings.HasSuffix(s.Text, "\n") {
		b.WriteString("\n")
	}
	rules := append([]RuleInfo(nil), s.Rules...)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "bulk-%d = int ; %s\n", i, pad)
		rules = append(rules, RuleInfo{Name: fmt.Sprintf("bulk-%d", i), Decl: []string{fmt.Sprintf("type Bulk%d int", i)}})
	}
	s.Text, s.Rules = b.String(), rules
}

// enrich adds rules to a source, among them constructs the code generator may
// not know.
func (f *SrcFile) enrich(ch *verifsim.Chooser) {
	f.Rich = true
	if ch.P(1, 3) {
		f.S = genSource(ch, genOpts{full: true, comments: true})
	} else {
		g := *f.S
		text, name := g.Text, "extra"
		if !strings.HasSuffix(text, "\n") {
			text += "\n"
		}
		target := name
		if len(g.Rules) > 0 {
			target = g.Rules[ch.N(len(g.Rules))].Name
		}
		line := beyond[ch.N(len(beyond))]
		if strings.Contains(line, "%s") {
			line = fmt.Sprintf(line, target)
		}
		r := RuleInfo{Name: name}
		g.Text, g.Rules = text+name+line[1:]+"\n", append(append([]RuleInfo(nil), g.Rules...), r)
		if ch.P(1, 2) {
			g.Text, g.Rules = g.Text+"extra-last = int\n", append(g.Rules, RuleInfo{Name: "extra-last"})
		}
		f.S = &g
	}
	f.Text = f.S.Text
}

// edit replaces the content of one source by a new valid one.
func (p *Project) edit(c *Ctx, f *SrcFile, o projOpts) {
	delete(p.Sources, f.Path)
	p.addSource(c, f.Path, o)
}

func (p *Project) anyBad() bool {
	for _, f := range p.outputs() {
		if f.Bad {
			return true
		}
	}
	return false
}

func (p *Project) anyRich() bool {
	for _, f := range p.Sources {
		if f.Rich {
			return true
		}
	}
	return false
}

// run executes processes together until all have ended.
func (c *Ctx) run(k *verifsim.Kernel, mode int, ps ...*verifsim.Proc) *verifsim.Sim {
	s := c.newSim()
	s.Mode = mode
	c.goroutines(s)
	k.Rebind(s)
	before := k.Clock
	for _, p := range ps {
		p.Start(budget(p), Main)
	}
	dead := s.Run()
	if d := k.Clock - before; d > 0 {
		c.St.SimNs += d
	}
	c.done(s)
	c.bookProcs(ps...)
	if dead {
		c.fail("deadlock", "processes wait for each other for ever")
	}
	for _, p := range ps {
		c.logf("%s (pid %d, %v): %s", p.Name, p.Pid, p.Args[1:], p.Status())
	}
	return s
}

// goroutines chooses how goroutines of the repository itself interleave, if it
// has any.
func (c *Ctx) goroutines(s *verifsim.Sim) {
	if verifsim.GoStmts == 0 {
		return
	}
	switch c.Ch.N(3) {
	case 0:
		if s.Mode == verifsim.SwitchNone {
			s.Mode = verifsim.SwitchSyscall
		}
	case 1:
		s.Mode = verifsim.SwitchStmt
		s.GapMax = []int{64, 1000, 20000}[c.Ch.N(3)]
	}
	if s.Mode != verifsim.SwitchNone && c.Ch.P(1, 2) {
		s.Dense = true
		s.MaxSw = 20000
		s.StopDen = []int{256, 1 << 20}[c.Ch.N(2)]
		if s.Mode == verifsim.SwitchSyscall {
			s.GapMax = []int{1, 2, 4, 24}[c.Ch.N(4)]
			s.Robin = c.Ch.P(1, 2)
			s.Eager = c.Ch.P(1, 2)
		}
	}
}

// budget bounds the steps of a process, so that one which never ends is found:
// far more than the size of everything it may read calls for.
func budget(p *verifsim.Proc) uint64 {
	n := p.K.FS.Size()
	for _, b := range p.Stdin {
		n += len(b)
	}
	return 30_000_000 + 600*uint64(n)
}

// proc makes a generate process of the project.
func (p *Project) proc(name string, args ...string) *verifsim.Proc {
	if len(args) == 0 {
		args = p.Args
	}
	return p.K.NewProc(name, p.Dir, args...)
}

// pristine runs one fault-free process on a copy of the disk.
func (c *Ctx) pristine(fs *verifsim.FS, dir string, args ...string) (*verifsim.Proc, *verifsim.FS) {
	return c.pristineIn(fs, dir, nil, args...)
}

func (c *Ctx) pristineIn(fs *verifsim.FS, dir string, stdin [][]byte, args ...string) (*verifsim.Proc, *verifsim.FS) {
	s := verifsim.NewSim(c.Ch)
	s.Mode = verifsim.SwitchNone
	k := verifsim.NewKernel(s)
	k.FS = fs.Clone()
	k.Rec = true
	q := k.NewProc("ref", dir, args...)
	q.Stdin = stdin
	q.Start(budget(q), Main)
	s.Run()
	c.St.Sims++
	for t := range k.Unknown {
		bug("unsupported system call %d: extend the simulated kernel", t)
	}
	c.Hash = verifsim.Mix(c.Hash ^ s.Hash)
	return q, k.FS
}

// reference is what a fault-free run produces.
type reference struct {
	proc *verifsim.Proc
	out  map[string]string // output path -> complete new content
	ops  []verifsim.Op
	fs   *verifsim.FS
}

func (c *Ctx) reference(p *Project) *reference {
	q, fs := c.pristine(p.K.FS, p.Dir, p.Args...)
	r := &reference{proc: q, out: map[string]string{}, ops: q.Ops, fs: fs}
	for op := range p.outputs() {
		if b, ok := fs.ReadFile(op); ok {
			r.out[op] = string(b)
		}
	}
	return r
}

// complete gives, for every output, the complete code of its source, obtained
// from fault-free runs of each source on its own, or "" when the source does
// not parse.
func (c *Ctx) complete(p *Project) map[string]string {
	m := map[string]string{}
	outs := p.outputs()
	for _, op := range sortedKeys(outs) {
		if outs[op].Bad {
			m[op] = ""
			continue
		}
		m[op] = c.alone(p, p.pkgOf(op), outs[op].Text)
	}
	return m
}

// alone generates one source text in an otherwise empty project; "" when that
// fails.
func (c *Ctx) alone(p *Project, pkg, text string) string {
	key := strings.Join(p.Args, "\x00") + "\x01" + pkg + "\x01" + text
	if v, ok := c.cache[key]; ok {
		return v
	}
	v := c.aloneRun(p, pkg, text)
	if c.cache == nil {
		c.cache = map[string]string{}
	}
	c.cache[key] = v
	return v
}

func (c *Ctx) aloneRun(p *Project, pkg, text string) string {
	s := verifsim.NewSim(c.Ch)
	k := verifsim.NewKernel(s)
	k.FS.MkdirAll("/solo/s")
	k.FS.MkdirAll("/tmp")
	k.FS.Put("/solo/cddlc.json", []byte(jsonConfig([]Build{{pkg, "s", "o"}}, false)))
	k.FS.Put("/solo/s/only.cddl", []byte(text))
	k.FS.Wipe()
	q, fs := c.pristine(k.FS, "/solo", p.Args...)
	b, ok := fs.ReadFile("/solo/o/only.go")
	if !q.OK() || !ok {
		return ""
	}
	return string(b)
}

// aloneByDefault says whether code is generated from the text in a directory
// without a configuration.
func (c *Ctx) aloneByDefault(text string) bool {
	s := verifsim.NewSim(c.Ch)
	k := verifsim.NewKernel(s)
	k.FS.MkdirAll("/solo")
	k.FS.MkdirAll("/tmp")
	k.FS.Put("/solo/only.cddl", []byte(text))
	k.FS.Wipe()
	q, fs := c.pristine(k.FS, "/solo", "/usr/bin/cddlc", "generate")
	b, ok := fs.ReadFile("/solo/dist/only.go")
	return q.OK() && ok && len(b) > 0
}

var spaceRe = regexp.MustCompile(`[ \t]+`)
var declRe = regexp.MustCompile(`^(type|var) `)

// outline checks generated code against what is known about its source.
func outline(code string, sf *SrcFile, pkg string) string {
	f := sf.S
	if !strings.HasPrefix(code, "/*\n") || !strings.Contains(code[:min(len(code), 400)], "DO NOT EDIT") {
		return "no build header at the start"
	}
	if !strings.HasSuffix(code, "}\n") && len(f.Rules) > 0 {
		return "does not end with a complete declaration"
	}
	lines := strings.Split(code, "\n")
	for i, l := range lines {
		lines[i] = strings.TrimSpace(spaceRe.ReplaceAllString(l, " "))
	}
	seen := false
	pl := strings.TrimSpace("package " + pkg)
	for _, l := range lines {
		if l == pl {
			seen = true
			break
		}
	}
	if !seen {
		return "no clause `" + pl + "`"
	}
	if sf.Rich { // what the declarations are is not known, but there must be one for each rule
		i := 0
		for ri, r := range f.Rules {
			for i < len(lines) && !declRe.MatchString(lines[i]) {
				i++
			}
			if i >= len(lines) {
				return fmt.Sprintf("declaration %d (rule %s) is missing", ri+1, r.Name)
			}
			if w := strings.Fields(lines[i]); len(w) < 3 || w[1] != camel(r.Name) {
				return fmt.Sprintf("rule %s: found %q", r.Name, lines[i])
			}
			i++
		}
		return ""
	}
	// declarations at the outermost level, in order
	i := 0
	for ri, r := range f.Rules {
		for i < len(lines) && !declRe.MatchString(lines[i]) {
			i++
		}
		if i >= len(lines) {
			return fmt.Sprintf("declaration %d (rule %s) is missing", ri+1, r.Name)
		}
		// layout is the formatter's business: compare without blanks
		want := squeeze(strings.Join(r.Decl, ""))
		got := ""
		for i < len(lines) && len(got) < len(want) {
			got += squeeze(lines[i])
			i++
		}
		if got != want {
			return fmt.Sprintf("rule %s: expected %q, found %q", r.Name, want, got)
		}
	}
	for ; i < len(lines); i++ {
		if declRe.MatchString(lines[i]) {
			return fmt.Sprintf("unexpected further declaration %q", lines[i])
		}
	}
	n := 0
	for _, l := range lines {
		if strings.HasPrefix(l, "func (") && strings.HasSuffix(l, ") Valid() error {") {
			n++
		}
	}
	if n != len(f.Rules) {
		return fmt.Sprintf("%d validation methods for %d rules", n, len(f.Rules))
	}
	return ""
}

// ---- fault plans ----

// planFaults draws a fault plan for a process whose fault-free run made ops.
// kinds lists the allowed fault kinds.
func planFaults(ch *verifsim.Chooser, ops []verifsim.Op, max int, kinds []int) []verifsim.Fault {
	n := ch.N(max + 1)
	var out []verifsim.Fault
	var muts []int
	for i, o := range ops {
		if o.Mut || o.Class == "fsync" || o.Class == "close" {
			muts = append(muts, i)
		}
	}
	for i := 0; i < n; i++ {
		k := kinds[ch.N(len(kinds))]
		at := 0
		switch {
		case len(ops) == 0:
			at = ch.N(40)
		case len(muts) > 0 && ch.P(2, 3):
			at = muts[ch.N(len(muts))]
			if ch.P(1, 6) {
				at += ch.N(3)
			}
		default:
			at = ch.N(len(ops) + 3)
		}
		out = append(out, verifsim.Fault{At: at, K: k, Arg: ch.N(1000)})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].At < out[j].At })
	return out
}

var errorKinds = []int{verifsim.FErrno, verifsim.FErrno, verifsim.FErrno, verifsim.FFull, verifsim.FTorn, verifsim.FMfile, verifsim.FShort, verifsim.FIntr, verifsim.FDisk}
var killKinds = []int{verifsim.FKillBefore, verifsim.FKillAfter, verifsim.FKillMid}
var powerKinds = []int{verifsim.FPower, verifsim.FPowerAfter}

func noise(ch *verifsim.Chooser, p *verifsim.Proc) {
	if ch.P(1, 3) {
		p.Noise = ch.Seed()
		p.NoiseDen = []int{2, 4, 8, 16}[ch.N(4)]
	}
}

func describeFaults(fs []verifsim.Fault) string {
	s := ""
	for _, f := range fs {
		s += fmt.Sprintf(" %s@%d/%d", verifsim.FaultNames[f.K], f.At, f.Arg)
	}
	if s == "" {
		return " none"
	}
	return s
}

// shapeProc folds how a process ended and which faults hit where into the shape.
func (c *Ctx) shapeProc(p *verifsim.Proc, ops []verifsim.Op) {
	c.shape(p.Code, p.Killed)
	for _, f := range p.Faults {
		if f.Fired {
			cl := "?"
			if f.At < len(ops) {
				cl = ops[f.At].Class
			}
			c.shape(f.K, cl, f.At)
		}
	}
}

// crashed fails the run when a process panicked or hung.
func (c *Ctx) crashed(p *verifsim.Proc, generating bool) {
	t := p.Thread
	if t.Hung {
		c.fail("hang", "%s %v does not terminate (%d statements, %d system calls)\n%s", p.Name, p.Args[1:], t.Steps, p.N, t.Stack)
	}
	if t.Panic != nil {
		if generating && strings.Contains(t.Stack, "/transforms/codegen/") {
			c.probe("panic-in-code-generation")
			return
		}
		c.fail("panic:"+t.PanicSite(), "%s %v panicked: %s\n%s", p.Name, p.Args[1:], t.PanicText(), t.Stack)
	}
}

var _ = syscall.EIO

// errHeap: natural exhaustion also counts as an error that was delivered.
func errored(p *verifsim.Proc) bool { return p.ErrHits > 0 }

func squeeze(s string) string { return strings.ReplaceAll(s, " ", "") }
