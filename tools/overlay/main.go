// Command overlay prepares the simulated build of the repository: it writes,
// under -out, patched copies of a handful of standard-library files (the seams
// for system calls, clock, process id, exit and randomness), instrumented
// copies of the repository's own non-test sources (a scheduling point before
// every statement, cooperative sync primitives, resettable globals) and an
// overlay.json that maps them, together with the simulator and the harness,
// over the real paths for `go test -c -overlay`. Nothing in the repository or
// in GOROOT is written.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "overlay: "+format+"\n", a...)
	os.Exit(2)
}

type edit struct {
	off  int
	del  int
	text string
	// suffix text belongs to the expression that ends at off
	suffix bool
}

func applyEdits(src []byte, eds []edit) []byte {
	// inner expressions, which come later, are closed first
	var ord []edit
	for i := len(eds) - 1; i >= 0; i-- {
		if eds[i].suffix {
			ord = append(ord, eds[i])
		}
	}
	for _, e := range eds {
		if !e.suffix {
			ord = append(ord, e)
		}
	}
	eds = ord
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		// what closes before what opens, insertions before replacements
		if eds[i].suffix != eds[j].suffix {
			return eds[i].suffix
		}
		return eds[i].del == 0 && eds[j].del > 0
	})
	var out []byte
	last := 0
	for _, e := range eds {
		if e.off < last {
			die("overlapping edits")
		}
		out = append(out, src[last:e.off]...)
		out = append(out, e.text...)
		last = e.off + e.del
	}
	return append(out, src[last:]...)
}

var (
	repo   = flag.String("repo", "/repo", "repository root")
	simDir = flag.String("sim", "/verif/sim", "simulator sources")
	out    = flag.String("out", "", "output directory")
	goroot = flag.String("goroot", "", "GOROOT")
)

var replace = map[string]string{}

func emit(target, name string, data []byte) {
	p := filepath.Join(*out, name)
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, data, 0666); err != nil {
		die("%v", err)
	}
	replace[target] = p
}

// patchStd rewrites one standard library file; every pattern must match once.
func patchStd(rel string, pairs ...string) {
	target := filepath.Join(*goroot, "src", rel)
	b, err := os.ReadFile(target)
	if err != nil {
		die("%v", err)
	}
	s := string(b)
	for i := 0; i < len(pairs); i += 2 {
		if n := strings.Count(s, pairs[i]); n != 1 {
			die("%s: pattern %q matches %d times; this Go version is not supported", rel, pairs[i], n)
		}
		s = strings.Replace(s, pairs[i], pairs[i+1], 1)
	}
	emit(target, "std/"+rel, []byte(s))
}

func patchAllStd() {
	patchStd("runtime/rand.go",
		"//go:linkname rand\nfunc rand() uint64 {\n", `//go:linkname rand
func rand() uint64 {
	if VerifRandOn && getg().labels != nil {
		VerifRandState += 0x9e3779b97f4a7c15
		z := VerifRandState
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
`,
		"// rand32 is uint32(rand()), called from compiler-generated code.\n", `
// Simulator seams: randomness of simulated threads and their identity.
var VerifRandOn bool
var VerifRandState uint64

func VerifLabel() unsafe.Pointer     { return getg().labels }
func VerifSetLabel(p unsafe.Pointer) { getg().labels = p }
func VerifGoid() uint64              { return getg().goid }

// rand32 is uint32(rand()), called from compiler-generated code.
`)
	patchStd("internal/runtime/maps/runtime_alg.go",
		"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(uint64(i+1) * 0x9e3779b97f4a7c15)",
		"	// Install AES hash algorithms if the instructions needed are present.\n", "	if verifNoAES {\n		return\n	}\n	// Install AES hash algorithms if the instructions needed are present.\n",
		"func AlgInit() {", "var verifNoAES = true\n\nfunc AlgInit() {")
	sys := func(sig, args, call string) (string, string) {
		old := "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall" + sig + "\nfunc Syscall" + sig + "("
		neu := "//go:uintptrescapes\n//go:linkname Syscall" + sig + "\nfunc Syscall" + sig + "(trap, " + args + " uintptr) (r1, r2 uintptr, err Errno) {\n" +
			"	if h := VerifHook; h != nil {\n		if r, e, ok := h(trap, " + call + "); ok {\n			return r, 0, e\n		}\n	}\n" +
			"	return verifSyscall" + sig + "(trap, " + args + ")\n}\n\n" +
			"//go:uintptrkeepalive\n//go:nosplit\nfunc verifSyscall" + sig + "("
		return old, neu
	}
	o3, n3 := sys("", "a1, a2, a3", "a1, a2, a3, 0, 0, 0")
	o6, n6 := sys("6", "a1, a2, a3, a4, a5, a6", "a1, a2, a3, a4, a5, a6")
	patchStd("syscall/syscall_linux.go", o3, n3, o6, n6,
		"func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n",
		"// VerifHook, when set, may serve a system call in place of the kernel.\nvar VerifHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r uintptr, err Errno, handled bool)\n\n// VerifPid, when set, may supply the process id, VerifIdent other ids.\nvar VerifPid func() (int, bool)\nvar VerifIdent func(name string) (int, bool)\n\nfunc rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n")
	ident := func(name string) [2]string {
		old := "func Get" + name + "() (" + name + " int) {\n"
		return [2]string{old, old + "	if VerifIdent != nil {\n		if p, ok := VerifIdent(\"" + name + "\"); ok {\n			return p\n		}\n	}\n"}
	}
	patchStd("syscall/zsyscall_linux_amd64.go",
		"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n	if VerifPid != nil {\n		if p, ok := VerifPid(); ok {\n			return p\n		}\n	}\n",
		ident("ppid")[0], ident("ppid")[1], ident("uid")[0], ident("uid")[1], ident("euid")[0], ident("euid")[1], ident("gid")[0], ident("gid")[1], ident("egid")[0], ident("egid")[1])
	patchStd("os/sys_linux.go",
		"func hostname() (name string, err error) {\n", "// VerifHost, when set, may supply the name of the machine.\nvar VerifHost func() (string, bool)\n\nfunc hostname() (name string, err error) {\n	if VerifHost != nil {\n		if s, ok := VerifHost(); ok {\n			return s, nil\n		}\n	}\n")
	patchStd("runtime/debug.go",
		"func NumCPU() int {\n", "func NumCPU() int {\n	if VerifCPUs != nil && getg().labels != nil {\n		if n := VerifCPUs(); n > 0 {\n			return n\n		}\n	}\n",
		"func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n	if VerifCPUs != nil && getg().labels != nil {\n		if n := VerifCPUs(); n > 0 {\n			return n\n		}\n	}\n",
		"// NumCgoCall returns", "// VerifCPUs, when set, may supply the number of processors.\nvar VerifCPUs func() int\n\n// NumCgoCall returns")
	patchStd("os/proc.go",
		"func Exit(code int) {\n", "func Exit(code int) {\n	if VerifExit != nil {\n		VerifExit(code)\n	}\n",
		"func runtime_beforeExit(exitCode int) // implemented in runtime", "func runtime_beforeExit(exitCode int) // implemented in runtime\n\n// VerifExit, when set, may end the simulated process instead.\nvar VerifExit func(code int)\n")
	patchStd("os/getwd.go",
		"var getwdCache struct {", "// VerifGetwd gives the remembered working directory and replaces it.\nfunc VerifGetwd(dir string) string {\n	getwdCache.Lock()\n	defer getwdCache.Unlock()\n	old := getwdCache.dir\n	getwdCache.dir = dir\n	return old\n}\n\nvar getwdCache struct {")
	patchStd("syscall/exec_unix.go",
		"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n", "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n	if VerifPid != nil {\n		if _, ok := VerifPid(); ok {\n			return 0, EAGAIN // a simulated process cannot start real ones\n		}\n	}\n")
	patchStd("syscall/env_unix.go",
		"	i, ok := env[key]\n	if !ok {\n		return \"\", false\n	}\n	s := envs[i]\n", "	i, ok := env[key]\n	if !ok {\n		if VerifEnv != nil {\n			return VerifEnv(key)\n		}\n		return \"\", false\n	}\n	s := envs[i]\n",
		"func Getenv(key string)", "// VerifEnv, when set, may supply variables that are not set.\nvar VerifEnv func(key string) (string, bool)\n\nfunc Getenv(key string)")
	// scans of the standard library count as steps
	work := "// VerifWork, when set, is told how many bytes a scan looked at.\nvar VerifWork func(n int)\n\n"
	scan := func(name, params, args, s string) (string, string) { // Index and its kin
		old := "func " + name + "(" + params + ") int {\n"
		return old, "func " + name + "(" + params + ") int {\n	if VerifWork == nil {\n		return verif" + name + "(" + args + ")\n	}\n	i := verif" + name + "(" + args + ")\n	n := i\n	if i < 0 {\n		n = len(" + s + ")\n	}\n	if n >= 64 {\n		VerifWork(n)\n	}\n	return i\n}\n\nfunc verif" + name + "(" + params + ") int {\n"
	}
	last := func(name, params, args, s string) (string, string) { // from the end
		o, n := scan(name, params, args, s)
		return o, strings.Replace(n, "n := i\n	if i < 0 {\n		n = len("+s+")", "n := len("+s+")\n	if i >= 0 {\n		n -= i", 1)
	}
	whole := func(name, params, s, ret string) (string, string) {
		old := "func " + name + "(" + params + ") " + ret + " {\n"
		return old, old + "	if VerifWork != nil && len(" + s + ") >= 64 {\n		VerifWork(len(" + s + "))\n	}\n"
	}
	var pb, ps, pu []string
	add := func(to *[]string, o, n string) { *to = append(*to, o, n) }
	o, n := whole("Count", "s, sep []byte", "s", "int")
	add(&pb, o, work+n)
	o, n = scan("Index", "s, sep []byte", "s, sep", "s")
	add(&pb, o, n)
	o, n = scan("IndexByte", "b []byte, c byte", "b, c", "b")
	add(&pb, o, n)
	o, n = last("LastIndex", "s, sep []byte", "s, sep", "s")
	add(&pb, o, n)
	o, n = last("LastIndexByte", "s []byte, c byte", "s, c", "s")
	add(&pb, o, n)
	patchStd("bytes/bytes.go", pb...)
	o, n = whole("Count", "s, substr string", "s", "int")
	add(&ps, o, work+n)
	o, n = scan("Index", "s, substr string", "s, substr", "s")
	add(&ps, o, n)
	o, n = scan("IndexByte", "s string, c byte", "s, c", "s")
	add(&ps, o, n)
	o, n = last("LastIndex", "s, substr string", "s, substr", "s")
	add(&ps, o, n)
	o, n = last("LastIndexByte", "s string, c byte", "s, c", "s")
	add(&ps, o, n)
	patchStd("strings/strings.go", ps...)
	o, n = whole("RuneCount", "p []byte", "p", "int")
	add(&pu, o, work+n)
	o, n = whole("RuneCountInString", "s string", "s", "(n int)")
	add(&pu, o, n)
	o, n = whole("Valid", "p []byte", "p", "bool")
	add(&pu, o, n)
	o, n = whole("ValidString", "s string", "s", "bool")
	add(&pu, o, n)
	patchStd("unicode/utf8/utf8.go", pu...)
	patchStd("time/time.go",
		"func Now() Time {\n	sec, nsec, mono := runtimeNow()\n", "func Now() Time {\n	if VerifNow != nil {\n		if s, n, ok := VerifNow(); ok {\n			return Unix(s, n)\n		}\n	}\n	sec, nsec, mono := runtimeNow()\n",
		"//go:linkname Now\n", "// VerifNow, when set, may supply the clock.\nvar VerifNow func() (sec int64, nsec int64, ok bool)\n\n//go:linkname Now\n")
	patchStd("time/sleep.go",
		"func Sleep(d Duration)\n", "func Sleep(d Duration) {\n	if VerifSleep != nil && VerifSleep(int64(d)) {\n		return\n	}\n	verifRealSleep(d)\n}\n\n// VerifSleep, when set, may serve the sleep in simulated time.\nvar VerifSleep func(ns int64) bool\n\nfunc verifRealSleep(d Duration)\n")
	patchStd("runtime/time.go",
		"//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.verifRealSleep\n")
}

// ---- repository instrumentation ----

type global struct {
	name string
}

type initItem struct {
	order int
	names []string // defined here
	deps  map[string]bool
	fn    string // helper function to call
}

type pkgInfo struct {
	dir     string
	path    string
	name    string
	files   []*fileInfo
	globals []global
	inits   []*initItem
	initFns []string
	funcs   map[string]map[string]bool // top-level function/method name -> identifiers used
	stmts   int
	gos     int
	types   *types.Package
}

type fileInfo struct {
	path string
	src  []byte
	f    *ast.File
	eds  []edit
	tail strings.Builder
}

func identsIn(n ast.Node) map[string]bool {
	m := map[string]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok {
			m[id.Name] = true
		}
		return true
	})
	return m
}

func instrumentPkg(c *checker, fset *token.FileSet, p *pkgInfo, mod string) {
	c.check(p)
	y := "verifsim.Y();"
	n := 0
	p.funcs = map[string]map[string]bool{}
	for _, fi := range p.files {
		off := func(pos token.Pos) int { return fset.Position(pos).Offset }
		ins := func(pos token.Pos, text string) { fi.eds = append(fi.eds, edit{off: off(pos), text: text}) }
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				ins(s.Pos(), y)
				p.stmts++
			}
		}
		ast.Inspect(fi.f, func(x ast.Node) bool {
			switch v := x.(type) {
			case *ast.BlockStmt:
				// switch and select bodies hold clauses, not statements
				if len(v.List) > 0 {
					switch v.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(v.List)
			case *ast.CaseClause:
				list(v.Body)
			case *ast.CommClause:
				list(v.Body)
			case *ast.ForStmt:
				if len(v.Body.List) == 0 {
					ins(v.Body.Lbrace+1, y)
				}
			case *ast.RangeStmt:
				if len(v.Body.List) == 0 {
					ins(v.Body.Lbrace+1, y)
				}
			}
			return true
		})
		mapAccess(c, fset, fi, false)
		concurrency(c, fset, fi, p)
		mapAccess(c, fset, fi, true)
		for _, im := range fi.f.Imports {
			if im.Path.Value == `"sync"` {
				t := `"` + mod + `/internal/verifsync"`
				if im.Name == nil {
					t = "sync " + t
				}
				fi.eds = append(fi.eds, edit{off: off(im.Path.Pos()), del: len(im.Path.Value), text: t})
			}
		}
		fi.eds = append(fi.eds, edit{off: off(fi.f.Name.End()), text: `;import verifsim "` + mod + `/internal/verifsim"`})
		fi.tail.WriteString("\nvar _ = verifsim.Y\n")
		// package level variables and init functions
		for _, d := range fi.f.Decls {
			switch v := d.(type) {
			case *ast.FuncDecl:
				if v.Name.Name == "init" && v.Recv == nil && v.Body != nil {
					nm := fmt.Sprintf("verifInit%d_%d", len(p.initFns), n)
					n++
					fi.eds = append(fi.eds, edit{off: off(v.Name.Pos()), del: 4, text: nm})
					fmt.Fprintf(&fi.tail, "\nfunc init() { %s() }\n", nm)
					p.initFns = append(p.initFns, nm)
					continue
				}
				m := p.funcs[v.Name.Name]
				if m == nil {
					m = map[string]bool{}
					p.funcs[v.Name.Name] = m
				}
				for k := range identsIn(v) {
					m[k] = true
				}
			case *ast.GenDecl:
				if v.Tok != token.VAR {
					continue
				}
				if v.Doc != nil && strings.Contains(v.Doc.Text()+commentText(v.Doc), "go:embed") {
					continue
				}
				for _, sp := range v.Specs {
					vs := sp.(*ast.ValueSpec)
					if vs.Doc != nil && strings.Contains(commentText(vs.Doc), "go:embed") {
						continue
					}
					for _, nm := range vs.Names {
						if nm.Name != "_" {
							p.globals = append(p.globals, global{nm.Name})
						}
					}
					text := func(e ast.Expr) string {
						lo, hi := off(e.Pos()), off(e.End())
						var in []edit
						for _, ed := range fi.eds {
							if ed.off >= lo && ed.off < hi || ed.off == hi && ed.suffix {
								in = append(in, edit{off: ed.off - lo, del: ed.del, text: ed.text, suffix: ed.suffix})
							}
						}
						return string(applyEdits(fi.src[lo:hi], in))
					}
					add := func(names []string, stmt string, e ast.Expr) {
						fn := fmt.Sprintf("verifReinit%d", n)
						n++
						fmt.Fprintf(&fi.tail, "\nfunc %s() { %s }\n", fn, stmt)
						p.inits = append(p.inits, &initItem{order: len(p.inits), names: names, deps: identsIn(e), fn: fn})
					}
					if len(vs.Values) == len(vs.Names) {
						for i, nm := range vs.Names {
							if nm.Name == "_" {
								continue
							}
							add([]string{nm.Name}, nm.Name+" = "+text(vs.Values[i]), vs.Values[i])
						}
					} else if len(vs.Values) == 1 {
						var ns []string
						for _, nm := range vs.Names {
							ns = append(ns, nm.Name)
						}
						add(ns, strings.Join(ns, ", ")+" = "+text(vs.Values[0]), vs.Values[0])
					}
				}
			}
		}
	}
	// order of initialisation, by the language's dependency rule (by name)
	isVar := map[string]bool{}
	for _, it := range p.inits {
		for _, nm := range it.names {
			isVar[nm] = true
		}
	}
	reach := func(it *initItem) map[string]bool {
		res := map[string]bool{}
		seen := map[string]bool{}
		var walk func(m map[string]bool)
		walk = func(m map[string]bool) {
			for k := range m {
				if seen[k] {
					continue
				}
				seen[k] = true
				if isVar[k] {
					res[k] = true
				}
				if f, ok := p.funcs[k]; ok {
					walk(f)
				}
			}
		}
		walk(it.deps)
		for _, nm := range it.names {
			delete(res, nm)
		}
		return res
	}
	var ordered []*initItem
	done := map[string]bool{}
	left := append([]*initItem(nil), p.inits...)
	rm := map[*initItem]map[string]bool{}
	for _, it := range left {
		rm[it] = reach(it)
	}
	for len(left) > 0 {
		pick := 0
	search:
		for i, it := range left {
			for k := range rm[it] {
				if !done[k] {
					continue search
				}
			}
			pick = i
			break
		}
		it := left[pick]
		left = append(left[:pick], left[pick+1:]...)
		ordered = append(ordered, it)
		for _, nm := range it.names {
			done[nm] = true
		}
	}
	var g strings.Builder
	fmt.Fprintf(&g, "package %s\n\nimport %q\n\nfunc init() {\n	verifsim.RegisterPackage(%q, []any{\n", p.name, mod+"/internal/verifsim", p.path)
	for _, x := range p.globals {
		fmt.Fprintf(&g, "		&%s,\n", x.name)
	}
	fmt.Fprintf(&g, "	}, func() {\n")
	for _, it := range ordered {
		fmt.Fprintf(&g, "		%s()\n", it.fn)
	}
	for _, f := range p.initFns {
		fmt.Fprintf(&g, "		%s()\n", f)
	}
	fmt.Fprintf(&g, "	})\n	verifsim.GoStmts += %d\n}\n", p.gos)
	for _, fi := range p.files {
		src := applyEdits(fi.src, fi.eds)
		src = append(src, '\n')
		src = append(src, fi.tail.String()...)
		rel, _ := filepath.Rel(*repo, fi.path)
		emit(fi.path, "repo/"+rel, src)
	}
	emit(filepath.Join(p.dir, "zz_verif_globals.go"), "repo/"+strings.TrimPrefix(p.path, "/")+"/zz_verif_globals.go", []byte(g.String()))
}

func commentText(cg *ast.CommentGroup) string {
	s := ""
	for _, c := range cg.List {
		s += c.Text + "\n"
	}
	return s
}

func main() {
	flag.Parse()
	if *out == "" || *goroot == "" {
		die("need -out and -goroot")
	}
	mb, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	mod := ""
	for _, l := range strings.Split(string(mb), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	if mod == "" {
		die("no module line in go.mod")
	}
	patchAllStd()
	fset := token.NewFileSet()
	pkgs := map[string]*pkgInfo{}
	err = filepath.WalkDir(*repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(path)
		if d.IsDir() {
			if path != *repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "examples" || base == "artifacts" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "_") || strings.HasPrefix(base, ".") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(path), base); err != nil || !ok {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		for _, im := range f.Imports {
			if im.Path.Value == `"C"` {
				return nil
			}
		}
		dir := filepath.Dir(path)
		rel, _ := filepath.Rel(*repo, dir)
		key := dir + "|" + f.Name.Name
		p := pkgs[key]
		if p == nil {
			p = &pkgInfo{dir: dir, name: f.Name.Name, path: filepath.ToSlash(filepath.Join(mod, rel))}
			pkgs[key] = p
		}
		p.files = append(p.files, &fileInfo{path: path, src: src, f: f})
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	var keys []string
	for k := range pkgs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	stmts := 0
	chk := newChecker(fset, pkgs)
	for _, k := range keys {
		instrumentPkg(chk, fset, pkgs[k], mod)
		stmts += pkgs[k].stmts
	}
	// simulator, cooperative sync and harness as virtual packages
	for _, v := range [][2]string{
		{"verifsim", "internal/verifsim"}, {"verifsync", "internal/verifsync"}, {"harness", "internal/verifharness"},
	} {
		ents, err := os.ReadDir(filepath.Join(*simDir, v[0]))
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(*simDir, v[0], e.Name()))
			if err != nil {
				die("%v", err)
			}
			s := strings.ReplaceAll(string(b), "MODULE/", mod+"/")
			emit(filepath.Join(*repo, v[1], e.Name()), "virt/"+v[0]+"/"+e.Name(), []byte(s))
		}
	}
	b, err := os.ReadFile(filepath.Join(*simDir, "main_test.go.in"))
	if err != nil {
		die("%v", err)
	}
	emit(filepath.Join(*repo, "cmd/cddlc/verif_main_test.go"), "virt/main_test.go", []byte(strings.ReplaceAll(string(b), "MODULE/", mod+"/")))
	js, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0666); err != nil {
		die("%v", err)
	}
	fmt.Printf("overlay: %d packages, %d statements instrumented, %d files mapped\n", len(keys), stmts, len(replace))
}
