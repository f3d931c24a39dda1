package verifsim

import (
	"encoding/binary"
	"flag"
	"fmt"
	"log"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Fault kinds.
const (
	FNone       = iota
	FErrno      // the call fails without effect
	FFull       // disk full from here to the end of the process
	FShort      // a short transfer (legal, not an error)
	FTorn       // a partial write, then the disk is full
	FMfile      // the open-file limit is hit
	FKillBefore // the process dies before the call
	FKillAfter  // ... right after it
	FKillMid    // ... in the middle of a write
	FPower      // power loss before the call
	FPowerAfter // power loss after the call
	FIntr       // an interrupted call (legal, not an error)
	FDisk       // from here on every access to file data fails with EIO
	FClock      // the clock jumps
	NFaultKinds
)

// FaultNames are the evidence labels.
var FaultNames = [NFaultKinds]string{"none", "errno", "disk-full", "short-transfer", "torn-write", "open-file-limit",
	"kill-before-call", "kill-after-call", "kill-mid-write", "power-loss-before", "power-loss-after", "interrupted-call", "disk-dead", "clock-jump"}

// Fault is one planned fault: kind K at the At-th file system call of the
// process. Arg selects the errno, the split or the direction.
type Fault struct {
	At, K, Arg int
	Fired      bool
}

// Op is one recorded file system call.
type Op struct {
	Class string
	Mut   bool
	Err   syscall.Errno
}

// File is an open file description.
type File struct {
	ino    *Inode
	off    int
	flags  int
	path   string
	dirPos []string
	std    int // 1 + stdio number, or 0
}

// Proc is one simulated process.
type Proc struct {
	K      *Kernel
	Name   string
	Pid    int
	UID    int
	Args   []string
	Env    []string
	Cwd    *Inode
	Umask  uint32
	Nofile int
	fds    map[int]*File

	Stdin     [][]byte // successive deliveries
	StdinErr  syscall.Errno
	stdinPos  int
	StdinRead int
	Stdout    []byte
	Stderr    []byte
	OutFail   int // console: stdout fails after that many bytes; -1 never
	ErrFail   int // console: stderr likewise
	ConErrno  syscall.Errno
	OutHit    bool // a console write failed
	ErrHit    bool

	Faults   []Fault
	Noise    uint64 // seed of legal noise (short transfers, EINTR), 0 = none
	NoiseDen int

	N       int // file system calls so far
	Ops     []Op
	full    bool
	diskEIO bool
	dead    bool
	Started bool
	Exited  bool
	Code    int
	Killed  bool            // by a fault
	ErrHits int             // injected errors that were delivered
	Errs    []syscall.Errno // the same
	Met     [256]bool       // the errors its calls have returned, injected or not
	Unlink  int             // of which on unlink
	CloseEr int             // of which on close
	Fired   [NFaultKinds]int
	MaxFds  int
	Thread  *Thread
	Rand    uint64 // state of the process's random number source

	saved []reflect.Value
	getwd string

	// AnyEnv, if set, is the value of every variable that is not in Env.
	AnyEnv string
	// Machine selects another host name, user, group and parent and another
	// number of processors.
	Machine  int
	flags    *flag.FlagSet
	hasSaved bool
}

// Kernel serves the system calls of simulated processes.
type Kernel struct {
	Sim     *Sim
	FS      *FS
	nextFd  int
	nextPid int
	DirSeed uint64
	Clock   int64 // simulated ns since boot
	Base    int64 // wall clock at boot, ns
	Rec     bool
	Unknown map[uintptr]bool
	OnMut   func(p *Proc, what, path string)
	OnOp    func(p *Proc, what, path string, e syscall.Errno)
	Power   bool // a power loss happened
	Calls   int

	PidReuse bool
	procs    []*Proc
}

// NewKernel attaches a kernel to a simulation.
func NewKernel(s *Sim) *Kernel {
	k := &Kernel{Sim: s, FS: newFS(), nextFd: 1 << 20, nextPid: 100, Base: 1700000000e9, Unknown: map[uintptr]bool{}}
	s.K = k
	return k
}

// Rebind moves a kernel (its disk, clock and pid counter) to a new simulation.
func (k *Kernel) Rebind(s *Sim) { k.Sim = s; s.K = k }

// NewProc creates a process in directory cwd.
func (k *Kernel) NewProc(name, cwd string, args ...string) *Proc {
	pid := k.newPid()
	_, _, n, e := k.FS.lookup(nil, k.FS.Root, cwd, true)
	if e != 0 || n == nil {
		panic("verifsim: no such cwd " + cwd)
	}
	q := &Proc{K: k, Name: name, Pid: pid, UID: 1000, Args: args, Cwd: n, Umask: 022, Nofile: 1024, fds: map[int]*File{}, OutFail: -1, ErrFail: -1, NoiseDen: 8, ConErrno: syscall.EIO, Rand: 12345}
	k.procs = append(k.procs, q)
	return q
}

// newPid numbers processes upwards or, with PidReuse (a container, where the
// command is always one of the first few processes), takes the first free one.
func (k *Kernel) newPid() int {
	if !k.PidReuse {
		k.nextPid++
		return k.nextPid
	}
	live := map[int]bool{}
	for _, q := range k.procs {
		if q.Thread == nil || !q.Thread.done {
			live[q.Pid] = true
		}
	}
	pid := 7
	for live[pid] {
		pid++
	}
	return pid
}

// ---- program state that belongs to the process ----

var (
	stdFiles  [3]*os.File
	keepFiles []*os.File
	stdStale  [3]bool
)

var envNow *Proc
var realFlags = flag.CommandLine
var envDef = []string{"HOME=/home/u", "LANG=C.UTF-8", "PATH=/usr/bin", "USER=u"}

func (p *Proc) load() {
	os.Args = p.Args
	runtime.VerifRandState = p.Rand
	if envNow != p && (p.Env != nil || envNow == nil || envNow.Env != nil) {
		os.Clearenv()
		env := p.Env
		if env == nil {
			env = envDef
		}
		for _, kv := range env {
			if i := strings.IndexByte(kv, '='); i > 0 {
				os.Setenv(kv[:i], kv[i+1:])
			}
		}
	}
	envNow = p
	os.VerifGetwd(p.getwd)
	if p.flags == nil {
		p.flags = flag.NewFlagSet(p.Args[0], flag.ExitOnError)
	}
	flag.CommandLine = p.flags
	for i, f := range []**os.File{&os.Stdin, &os.Stdout, &os.Stderr} {
		if stdFiles[i] == nil {
			stdFiles[i] = *f
		}
		if stdStale[i] {
			stdFiles[i] = os.NewFile(uintptr(i), stdFiles[i].Name())
			keepFiles = append(keepFiles, stdFiles[i])
			stdStale[i] = false
		}
		*f = stdFiles[i]
	}
	if !p.hasSaved {
		ResetGlobals()
		p.hasSaved = true
		log.SetOutput(os.Stderr)
		log.SetFlags(log.LstdFlags)
		log.SetPrefix("")
	} else {
		loadGlobals(p.saved)
	}
}

func (p *Proc) save() {
	p.saved = saveGlobals(p.saved)
	p.getwd = os.VerifGetwd("")
	p.flags, flag.CommandLine = flag.CommandLine, realFlags
	p.Rand = runtime.VerifRandState
}

// Install puts the hooks in place (once per worker).
func Install() {
	syscall.VerifHook = hook
	syscall.VerifPid = func() (int, bool) {
		if t := me(); t != nil && t.Proc != nil {
			return t.Proc.Pid, true
		}
		return 0, false
	}
	syscall.VerifIdent = func(name string) (int, bool) {
		t := me()
		if t == nil || t.Proc == nil {
			return 0, false
		}
		if name == "ppid" {
			return 50 + t.Proc.Machine, true
		}
		if t.Proc.Machine%4 == 1 { // root
			return 0, true
		}
		return t.Proc.UID + t.Proc.Machine, true
	}
	os.VerifHost = func() (string, bool) {
		t := me()
		if t == nil || t.Proc == nil {
			return "", false
		}
		return fmt.Sprintf("host%d", t.Proc.Machine), true
	}
	runtime.VerifCPUs = func() int {
		t := me()
		if t == nil || t.Proc == nil {
			return 0
		}
		return []int{4, 1, 2, 3, 64}[t.Proc.Machine%5]
	}
	syscall.VerifEnv = func(key string) (string, bool) {
		t := me()
		if t == nil || t.Proc == nil || t.Proc.AnyEnv == "" {
			return "", false
		}
		switch key {
		case "TMPDIR", "HOME", "PATH", "PWD", "TZ", "ZONEINFO":
			return "", false
		}
		if strings.HasPrefix(key, "GO") {
			return "", false
		}
		return t.Proc.AnyEnv, true
	}
	os.VerifExit = func(code int) {
		t := me()
		if t == nil || t.Proc == nil {
			return
		}
		p := t.Proc
		if !p.dead {
			p.Exited, p.Code = true, code
			p.dead = true
			p.closeAll()
		}
		t.kill = true
		runtime.Goexit()
	}
	time.VerifNow = func() (int64, int64, bool) {
		t := me()
		if t == nil || t.Proc == nil {
			return 0, 0, false
		}
		k := t.Proc.K
		k.Clock += 1000
		n := k.Base + k.Clock
		return n / 1e9, n % 1e9, true
	}
	time.VerifSleep = func(ns int64) bool {
		t := me()
		if t == nil || t.Proc == nil {
			return false
		}
		if ns > 0 {
			t.Proc.K.Clock += ns
		}
		if t.mine() {
			t.sim.syscallPoint(t)
		}
		return true
	}
}

func me() *Thread { return (*Thread)(runtime.VerifLabel()) }

// Start runs fn as the process's main function in a new thread.
func (p *Proc) Start(limit uint64, fn func()) *Thread {
	p.Started = true
	p.Thread = p.K.Sim.Go(p.Name, p, limit, func() {
		fn()
		if !p.dead {
			p.Exited, p.Code, p.dead = true, 0, true
			p.closeAll()
		}
	})
	return p.Thread
}

// OpenFiles is the number of files the process holds open.
func (p *Proc) OpenFiles() int { return len(p.fds) }

func (p *Proc) closeAll() { p.fds = map[int]*File{} }

// Status describes how the process ended: "exit N", "killed", "panic ...".
func (p *Proc) Status() string {
	switch {
	case p.Thread.Panic != nil:
		return "panic: " + p.Thread.PanicText()
	case p.Thread.Hung:
		return "hang"
	case p.Killed:
		return "killed"
	case p.Exited:
		return fmt.Sprintf("exit %d", p.Code)
	}
	return "not run"
}

// OK reports exit status 0.
func (p *Proc) OK() bool {
	return p.Exited && p.Code == 0 && p.Thread.Panic == nil && !p.Thread.Hung && !p.Killed
}

// ---- the system call hook ----

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[1 << 20]byte)(unsafe.Pointer(p))
	n := 0
	for b[n] != 0 {
		n++
	}
	return string(b[:n])
}

func buf(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

const minus1 = ^uintptr(0)

type call struct {
	trap   uintptr
	a      [6]uintptr
	class  string
	mut    bool
	write  bool // transfers data to a file
	read   bool
	alloc  bool // needs disk space
	opens  bool
	path   string
	path2  string
	dirfd  int
	dirfd2 int
	fd     int
	flags  int
	mode   uint32
}

func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno, bool) {
	t := me()
	if t == nil || t.Proc == nil {
		return 0, 0, false
	}
	p := t.Proc
	if p.dead {
		return minus1, syscall.EIO, true
	}
	on := runtime.VerifRandOn
	runtime.VerifRandOn = false
	r, e := p.K.serve(t, p, trap, [6]uintptr{a1, a2, a3, a4, a5, a6})
	runtime.VerifRandOn = on
	if e != 0 {
		r = minus1
	}
	return r, e, true
}

const (
	atFDCWD     = -100
	atRemoveDir = 0x200
	atNoFollow  = 0x100
	atEmptyPath = 0x1000
)

func sx(v uintptr) int { return int(int32(uint32(v))) }

func decode(trap uintptr, a [6]uintptr) (c call, known bool) {
	c = call{trap: trap, a: a, fd: -1, dirfd: atFDCWD, dirfd2: atFDCWD}
	known = true
	creat := func() {
		c.class = "open"
		c.opens = true
		if c.flags&syscall.O_CREAT != 0 {
			c.class = "create"
			c.mut, c.alloc = true, true
		}
		if c.flags&syscall.O_TRUNC != 0 {
			c.mut = true
		}
	}
	switch trap {
	case syscall.SYS_OPENAT:
		c.dirfd, c.path, c.flags, c.mode = sx(a[0]), cstr(a[1]), int(a[2]), uint32(a[3])
		creat()
	case syscall.SYS_OPEN:
		c.path, c.flags, c.mode = cstr(a[0]), int(a[1]), uint32(a[2])
		creat()
	case syscall.SYS_CREAT:
		c.path, c.flags, c.mode = cstr(a[0]), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a[1])
		creat()
	case syscall.SYS_CLOSE:
		c.class, c.fd = "close", sx(a[0])
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		c.class, c.fd, c.read = "read", sx(a[0]), true
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		c.class, c.fd, c.write, c.mut, c.alloc = "write", sx(a[0]), true, true, true
	case syscall.SYS_LSEEK:
		c.class, c.fd = "lseek", sx(a[0])
	case syscall.SYS_FSTAT:
		c.class, c.fd = "fstat", sx(a[0])
	case 262: // newfstatat
		c.class, c.dirfd, c.path, c.flags = "stat", sx(a[0]), cstr(a[1]), int(a[3])
	case syscall.SYS_STAT:
		c.class, c.path = "stat", cstr(a[0])
	case syscall.SYS_LSTAT:
		c.class, c.path, c.flags = "stat", cstr(a[0]), atNoFollow
	case syscall.SYS_GETDENTS64:
		c.class, c.fd = "getdents", sx(a[0])
	case syscall.SYS_MKDIRAT:
		c.class, c.dirfd, c.path, c.mode, c.mut, c.alloc = "mkdir", sx(a[0]), cstr(a[1]), uint32(a[2]), true, true
	case syscall.SYS_MKDIR:
		c.class, c.path, c.mode, c.mut, c.alloc = "mkdir", cstr(a[0]), uint32(a[1]), true, true
	case syscall.SYS_UNLINKAT:
		c.class, c.dirfd, c.path, c.flags, c.mut = "unlink", sx(a[0]), cstr(a[1]), int(a[2]), true
	case syscall.SYS_UNLINK:
		c.class, c.path, c.mut = "unlink", cstr(a[0]), true
	case syscall.SYS_RMDIR:
		c.class, c.path, c.flags, c.mut = "unlink", cstr(a[0]), atRemoveDir, true
	case syscall.SYS_RENAMEAT:
		c.class, c.dirfd, c.path, c.dirfd2, c.path2, c.mut = "rename", sx(a[0]), cstr(a[1]), sx(a[2]), cstr(a[3]), true
	case 316: // renameat2
		c.class, c.dirfd, c.path, c.dirfd2, c.path2, c.flags, c.mut = "rename", sx(a[0]), cstr(a[1]), sx(a[2]), cstr(a[3]), int(a[4]), true
	case syscall.SYS_RENAME:
		c.class, c.path, c.path2, c.mut = "rename", cstr(a[0]), cstr(a[1]), true
	case syscall.SYS_LINKAT:
		c.class, c.dirfd, c.path, c.dirfd2, c.path2, c.flags, c.mut, c.alloc = "link", sx(a[0]), cstr(a[1]), sx(a[2]), cstr(a[3]), int(a[4]), true, true
	case syscall.SYS_LINK:
		c.class, c.path, c.path2, c.mut, c.alloc = "link", cstr(a[0]), cstr(a[1]), true, true
	case syscall.SYS_SYMLINKAT:
		c.class, c.path2, c.dirfd, c.path, c.mut, c.alloc = "symlink", cstr(a[0]), sx(a[1]), cstr(a[2]), true, true
	case syscall.SYS_SYMLINK:
		c.class, c.path2, c.path, c.mut, c.alloc = "symlink", cstr(a[0]), cstr(a[1]), true, true
	case syscall.SYS_READLINKAT:
		c.class, c.dirfd, c.path = "readlink", sx(a[0]), cstr(a[1])
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		c.class, c.fd, c.alloc = "fsync", sx(a[0]), true
	case syscall.SYS_FTRUNCATE:
		c.class, c.fd, c.mut = "truncate", sx(a[0]), true
	case syscall.SYS_TRUNCATE:
		c.class, c.path, c.mut = "truncate", cstr(a[0]), true
	case syscall.SYS_GETCWD:
		c.class = "getcwd"
	case syscall.SYS_CHDIR:
		c.class, c.path = "chdir", cstr(a[0])
	case syscall.SYS_FCNTL:
		c.class, c.fd = "fcntl", sx(a[0])
	case syscall.SYS_IOCTL:
		c.class, c.fd = "ioctl", sx(a[0])
	case syscall.SYS_FCHMOD:
		c.class, c.fd, c.mut, c.mode = "chmod", sx(a[0]), true, uint32(a[1])
	case syscall.SYS_FCHMODAT, 452:
		c.class, c.dirfd, c.path, c.mut, c.mode = "chmod", sx(a[0]), cstr(a[1]), true, uint32(a[2])
	case syscall.SYS_CHMOD:
		c.class, c.path, c.mut, c.mode = "chmod", cstr(a[0]), true, uint32(a[1])
	case syscall.SYS_FACCESSAT, 439:
		c.class, c.dirfd, c.path, c.mode = "access", sx(a[0]), cstr(a[1]), uint32(a[2])
	case syscall.SYS_UTIMENSAT:
		c.class, c.dirfd, c.path = "utimes", sx(a[0]), cstr(a[1])
	case syscall.SYS_FLOCK:
		c.class, c.fd = "flock", sx(a[0])
	case syscall.SYS_SYNC, 306: // sync, syncfs
		c.class = "sync"
	case syscall.SYS_FALLOCATE, 326, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, 332, 437, syscall.SYS_STATFS, syscall.SYS_FSTATFS, syscall.SYS_FADVISE64:
		c.class = "nosys"
	default:
		known = false
	}
	return
}

func (k *Kernel) errnoFor(c *call, arg int) syscall.Errno {
	var l []syscall.Errno
	switch c.class {
	case "open":
		l = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOMEM, syscall.ENFILE, syscall.EMFILE, syscall.ETIMEDOUT, syscall.EPERM}
		if c.flags&syscall.O_ACCMODE != 0 {
			l = append(l, syscall.EROFS, syscall.ETXTBSY)
		}
	case "create":
		l = []syscall.Errno{syscall.ENOSPC, syscall.EACCES, syscall.EIO, syscall.EROFS, syscall.EDQUOT, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.EPERM}
	case "read", "getdents":
		l = []syscall.Errno{syscall.EIO, syscall.ENOMEM, syscall.ESTALE, syscall.ETIMEDOUT}
	case "write":
		l = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG}
	case "close":
		l = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
	case "fsync":
		l = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
	case "rename":
		l = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EPERM, syscall.EROFS, syscall.EDQUOT, syscall.EBUSY}
	case "mkdir", "link", "symlink":
		l = []syscall.Errno{syscall.EACCES, syscall.ENOSPC, syscall.EIO, syscall.EROFS, syscall.EDQUOT}
	case "unlink":
		l = []syscall.Errno{syscall.EACCES, syscall.EIO, syscall.EBUSY, syscall.EROFS}
	case "stat", "access", "chdir", "readlink":
		l = []syscall.Errno{syscall.EACCES, syscall.EIO, syscall.ENOMEM, syscall.ESTALE}
	case "getcwd":
		l = []syscall.Errno{syscall.EACCES, syscall.ENOMEM}
	case "truncate", "chmod", "utimes":
		l = []syscall.Errno{syscall.EIO, syscall.EROFS, syscall.EPERM}
	case "fstat", "lseek", "sync":
		l = []syscall.Errno{syscall.EIO}
	default:
		return 0
	}
	return l[arg%len(l)]
}

func (p *Proc) die() {
	p.Killed = true
	p.dead = true
	p.closeAll()
	p.K.Sim.Note("%s: killed", p.Name)
	if t := me(); t != nil {
		t.kill = true
	}
	runtime.Goexit()
}

func (k *Kernel) power() {
	k.Power = true
	k.Sim.dead = true
	k.Sim.Note("power loss")
	for _, t := range k.Sim.threads {
		if !t.done && t.Proc != nil {
			t.Proc.dead = true
			if !t.Proc.Exited {
				t.Proc.Killed = true
			}
		}
		t.kill = true
	}
	runtime.Goexit()
}

func (k *Kernel) serve(t *Thread, p *Proc, trap uintptr, a [6]uintptr) (uintptr, syscall.Errno) {
	c, known := decode(trap, a)
	if !known {
		k.Unknown[trap] = true
		return 0, syscall.ENOSYS
	}
	if c.class == "nosys" {
		return 0, syscall.ENOSYS
	}
	if c.fd >= 0 && c.fd <= 2 {
		if f := p.fds[c.fd]; f == nil { // not redirected
			return k.console(p, &c)
		}
	}
	mine := t.mine()
	if mine {
		k.Sim.syscallPoint(t)
	}
	k.Calls++
	k.Clock += 1000 + int64(Mix(uint64(k.Clock))%50000)
	n := p.N
	p.N++
	if p.N > 100000 {
		t.Hung, t.kill, p.dead = true, true, true
		t.Stack = "more than 100000 system calls"
		runtime.Goexit()
	}
	var f *Fault
	for i := range p.Faults {
		if p.Faults[i].At == n && !p.Faults[i].Fired {
			f = &p.Faults[i]
			break
		}
	}
	fire := func() {
		f.Fired = true
		p.Fired[f.K]++
	}
	var e syscall.Errno
	short := -1 // bytes to transfer
	post := 0
	fd := p.fds[c.fd]
	if f != nil {
		switch f.K {
		case FKillBefore:
			fire()
			k.note(p, &c, 0, 0, "kill")
			p.die()
		case FPower:
			fire()
			k.note(p, &c, 0, 0, "power")
			k.power()
		case FKillAfter, FPowerAfter:
			fire()
			post = f.K
		case FKillMid:
			if c.write && fd != nil {
				fire()
				post = FKillAfter
				short = int(c.a[2]) * (f.Arg % 100) / 100
			}
		case FErrno:
			if e = k.errnoFor(&c, f.Arg); e != 0 {
				fire()
			}
		case FFull:
			fire()
			p.full = true
		case FDisk:
			fire()
			p.diskEIO = true
		case FMfile:
			if c.opens {
				fire()
				e = syscall.EMFILE
			}
		case FShort:
			if (c.read || c.write) && fd != nil && c.a[2] > 1 {
				fire()
				short = 1 + f.Arg%int(c.a[2]-1)
			}
		case FTorn:
			if c.write && fd != nil && c.a[2] > 1 {
				fire()
				short = f.Arg % int(c.a[2])
				if short == 0 {
					e = syscall.ENOSPC
				}
				p.full = true
			}
		case FIntr:
			if c.read || c.write || c.opens {
				fire()
				k.note(p, &c, 0, syscall.EINTR, "")
				return 0, syscall.EINTR
			}
		case FClock:
			fire()
			k.Clock += (int64(f.Arg%2001) - 1000) * 3600e9
		}
	}
	torn := f != nil && f.K == FTorn && f.Fired && short > 0
	if e == 0 && !torn {
		if p.full && c.alloc && (c.class != "create" || !k.exists(p, &c)) && c.class != "fsync" {
			e = syscall.ENOSPC
		}
		if p.diskEIO && (c.read || c.write || c.class == "fsync" || c.class == "getdents") {
			e = syscall.EIO
		}
	}
	if e == 0 && p.Noise != 0 && short < 0 {
		h := Mix(p.Noise ^ uint64(n)*0x9e37)
		if h%uint64(p.NoiseDen) == 0 && (c.read || c.write || c.opens) {
			if h>>20&1 == 0 {
				p.Fired[FIntr]++
				k.note(p, &c, 0, syscall.EINTR, "")
				return 0, syscall.EINTR
			}
			if !c.opens && c.a[2] > 1 && fd != nil {
				m := c.a[2]
				if h>>21&1 == 0 && m > 16 {
					m = 16
				}
				short = 1 + int((h>>24)%uint64(m-1))
				p.Fired[FShort]++
			}
		}
	}
	if e != 0 {
		p.ErrHits++
		p.Errs = append(p.Errs, e)
		switch c.class {
		case "unlink":
			p.Unlink++
		case "fsync":
			if fd != nil && e != syscall.EINTR {
				k.FS.writebackFailed(fd.ino, k.lossArg(f, n))
			}
		case "close":
			p.CloseEr++
			if fd != nil && fd.flags&syscall.O_ACCMODE != syscall.O_RDONLY && e != syscall.EINTR {
				k.FS.writebackFailed(fd.ino, k.lossArg(f, n))
			}
			delete(p.fds, c.fd) // the descriptor is gone all the same
		}
		k.note(p, &c, 0, e, "fault")
		if k.Rec {
			p.Ops = append(p.Ops, Op{c.class, c.mut, e})
		}
		return 0, e
	}
	if short >= 0 && (c.read || c.write) {
		c.a[2] = uintptr(short)
	}
	var r uintptr
	if !(c.write && short == 0) {
		r, e = k.exec(p, &c)
	}
	k.note(p, &c, r, e, "")
	if k.Rec {
		p.Ops = append(p.Ops, Op{c.class, c.mut && e == 0, e})
	}
	if k.OnOp != nil {
		k.OnOp(p, c.class, c.path, e)
	}
	if c.mut && e == 0 && k.OnMut != nil {
		k.OnMut(p, c.class, c.path)
	}
	switch post {
	case FKillAfter:
		p.die()
	case FPowerAfter:
		k.power()
	}
	return r, e
}

func (k *Kernel) lossArg(f *Fault, n int) int {
	if f != nil {
		return f.Arg
	}
	return int(Mix(uint64(n)) % 1000)
}

func (k *Kernel) exists(p *Proc, c *call) bool {
	_, _, n, e := k.FS.lookup(p, p.at(c.dirfd), c.path, true)
	return e == 0 && n != nil
}

func (k *Kernel) note(p *Proc, c *call, r uintptr, e syscall.Errno, extra string) {
	s := k.Sim
	if e > 0 && int(e) < len(p.Met) {
		p.Met[e] = true
	}
	s.mix(uint64(p.Pid))
	s.mix(uint64(c.trap)<<16 ^ uint64(e))
	s.mix(uint64(r))
	if c.path != "" {
		s.mixStr(c.path)
	}
	if s.Tracing {
		what := c.class
		if c.path != "" {
			what += " " + c.path
		}
		if c.path2 != "" {
			what += " -> " + c.path2
		}
		if f := p.fds[c.fd]; f != nil {
			what += " " + f.path
		} else if c.fd >= 0 {
			what += fmt.Sprintf(" fd%d", c.fd&0xfffff)
		}
		if c.read || c.write {
			what += fmt.Sprintf(" n=%d", c.a[2])
		}
		res := fmt.Sprintf("= %d", int(r))
		if r >= 1<<20 && r < 1<<30 {
			res = fmt.Sprintf("= fd%d", r&0xfffff)
		}
		if e != 0 {
			res = "= " + e.Error()
		}
		if extra != "" {
			res += " [" + extra + "]"
		}
		s.Note("%s #%d %s %s", p.Name, p.N-1, what, res)
	}
}

func (k *Kernel) console(p *Proc, c *call) (uintptr, syscall.Errno) {
	k.Clock += 1000
	switch {
	case c.read && c.fd == 0:
		h := uint64(1)
		if p.Noise != 0 {
			h = Mix(p.Noise ^ uint64(p.StdinRead+7)*0x51ed27)
			p.StdinRead++
			if h%uint64(p.NoiseDen) == 0 {
				p.Fired[FIntr]++
				return 0, syscall.EINTR
			}
		}
		if p.stdinPos >= len(p.Stdin) {
			if p.StdinErr != 0 {
				return 0, p.StdinErr
			}
			return 0, 0
		}
		ch := p.Stdin[p.stdinPos]
		n := copy(buf(c.a[1], c.a[2]), ch)
		if n < len(ch) {
			p.Stdin[p.stdinPos] = ch[n:]
		} else {
			p.stdinPos++
		}
		return uintptr(n), 0
	case c.write && (c.fd == 1 || c.fd == 2):
		b := buf(c.a[1], c.a[2])
		dst, lim, hit := &p.Stdout, p.OutFail, &p.OutHit
		if c.fd == 2 {
			dst, lim, hit = &p.Stderr, p.ErrFail, &p.ErrHit
		}
		if lim >= 0 && len(*dst)+len(b) > lim {
			n := lim - len(*dst)
			if n < 0 {
				n = 0
			}
			*dst = append(*dst, b[:n]...)
			if n > 0 {
				return uintptr(n), 0
			}
			*hit = true
			return 0, p.ConErrno
		}
		if p.Noise != 0 && len(b) > 1 {
			h := Mix(p.Noise ^ uint64(len(*dst)+3)*0x51ed27 ^ uint64(c.fd)<<40)
			if h%uint64(p.NoiseDen) == 0 {
				if h>>20&1 == 0 && h>>21&3 != 0 {
					// interrupted before anything was written; the retry sees
					// another length-independent draw only after progress, so
					// make progress instead of looping
					b = b[:1]
				} else {
					b = b[:1+int((h>>24)%uint64(len(b)-1))]
				}
				p.Fired[FShort]++
			}
		}
		*dst = append(*dst, b...)
		return uintptr(len(b)), 0
	case c.class == "close":
		stdStale[c.fd] = true
		p.fds[c.fd] = &File{std: -1}
		return 0, 0
	case c.class == "fstat":
		st := (*syscall.Stat_t)(unsafe.Pointer(c.a[1]))
		*st = syscall.Stat_t{Mode: syscall.S_IFCHR | 0620, Blksize: 4096}
		return 0, 0
	case c.class == "fsync":
		return 0, syscall.EINVAL
	case c.class == "lseek":
		return 0, syscall.ESPIPE
	case c.class == "ioctl":
		return 0, syscall.ENOTTY
	case c.class == "fcntl":
		return 0, 0
	}
	return 0, syscall.EBADF
}

func (p *Proc) at(dirfd int) *Inode {
	if dirfd == atFDCWD {
		return p.Cwd
	}
	if f := p.fds[dirfd]; f != nil && f.ino != nil {
		return f.ino
	}
	return nil
}

func (p *Proc) may(n *Inode, want uint32) bool {
	if p.UID == 0 {
		return true
	}
	return n.Mode>>6&want == want
}

func (k *Kernel) fillStat(st *syscall.Stat_t, n *Inode) {
	*st = syscall.Stat_t{Dev: 1, Ino: uint64(n.ID), Nlink: uint64(n.Nlink), Mode: n.Mode, Uid: 1000, Gid: 1000, Blksize: 4096}
	switch n.Kind {
	case KFile:
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(n.Data))
		if n.Sizeless {
			st.Size = 0
		}
	case KDir:
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	case KLink:
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.Target))
	}
	m := k.Base + n.MTime
	st.Mtim = syscall.Timespec{Sec: m / 1e9, Nsec: m % 1e9}
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

// pathOf names a directory.
func (f *FS) pathOf(n *Inode) (string, bool) {
	if n == f.Root {
		return "/", true
	}
	s := ""
	for n != f.Root {
		pn := ""
		for name, c := range n.Parent.Ents {
			if c == n {
				pn = name
			}
		}
		if pn == "" {
			return "", false
		}
		s = "/" + pn + s
		n = n.Parent
	}
	return s, true
}

// noFd reports that the open-file limit is reached; Linux finds that out before
// it creates or truncates anything.
func (k *Kernel) noFd(p *Proc) bool {
	if len(p.fds)+3 < p.Nofile {
		return false
	}
	p.Fired[FMfile]++
	p.ErrHits++
	p.Errs = append(p.Errs, syscall.EMFILE)
	return true
}

func (k *Kernel) newFd(p *Proc, f *File) (uintptr, syscall.Errno) {
	k.nextFd++
	p.fds[k.nextFd] = f
	if n := len(p.fds) + 3; n > p.MaxFds {
		p.MaxFds = n
	}
	return uintptr(k.nextFd), 0
}

func (k *Kernel) exec(p *Proc, c *call) (uintptr, syscall.Errno) {
	fs := k.FS
	var f *File
	switch c.class {
	case "close", "read", "write", "lseek", "fstat", "getdents", "fsync", "fcntl", "ioctl", "flock":
		f = p.fds[c.fd]
		if f == nil || f.ino == nil {
			return 0, syscall.EBADF
		}
	case "truncate", "chmod":
		if c.fd >= 0 {
			f = p.fds[c.fd]
			if f == nil || f.ino == nil {
				return 0, syscall.EBADF
			}
		}
	}
	var at *Inode
	if f == nil {
		at = p.at(c.dirfd)
		if at == nil && (c.path == "" || c.path[0] != '/') {
			return 0, syscall.EBADF
		}
	}
	switch c.class {
	case "open", "create":
		if k.noFd(p) {
			return 0, syscall.EMFILE
		}
		nofollow := c.flags&syscall.O_NOFOLLOW != 0 || c.flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL
		d, name, n, e := fs.lookup(p, at, c.path, !nofollow)
		if e != 0 {
			return 0, e
		}
		acc := c.flags & syscall.O_ACCMODE
		if n == nil {
			if c.flags&syscall.O_CREAT == 0 {
				return 0, syscall.ENOENT
			}
			if c.path[len(c.path)-1] == '/' {
				return 0, syscall.EISDIR
			}
			if !p.may(d, 3) {
				return 0, syscall.EACCES
			}
			n = fs.newInode(KFile, c.mode&^p.Umask)
			n.MTime = k.Clock
			fs.do(mop{dir: d, name: name, ino: n})
			d.MTime = k.Clock
		} else {
			if c.flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
				return 0, syscall.EEXIST
			}
			if n.Kind == KLink {
				return 0, syscall.ELOOP
			}
			if n.Kind == KDir && (acc != 0 || c.flags&syscall.O_CREAT != 0) {
				return 0, syscall.EISDIR
			}
			if c.flags&syscall.O_DIRECTORY != 0 && n.Kind != KDir {
				return 0, syscall.ENOTDIR
			}
			want := uint32(0)
			if acc == syscall.O_RDONLY || acc == syscall.O_RDWR {
				want |= 4
			}
			if acc == syscall.O_WRONLY || acc == syscall.O_RDWR {
				want |= 2
			}
			if !p.may(n, want) {
				return 0, syscall.EACCES
			}
			if c.flags&syscall.O_TRUNC != 0 && n.Kind == KFile && acc != 0 {
				n.truncate(0)
				n.MTime = k.Clock
			}
		}
		return k.newFd(p, &File{ino: n, flags: c.flags, path: c.path})
	case "close":
		delete(p.fds, c.fd)
		return 0, 0
	case "read":
		if f.ino.Kind == KDir {
			return 0, syscall.EISDIR
		}
		if f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		off := f.off
		if c.trap == syscall.SYS_PREAD64 {
			off = int(c.a[3])
		}
		if off >= len(f.ino.Data) {
			return 0, 0
		}
		n := copy(buf(c.a[1], c.a[2]), f.ino.Data[off:])
		if c.trap != syscall.SYS_PREAD64 {
			f.off += n
		}
		return uintptr(n), 0
	case "write":
		if f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		off := f.off
		if c.trap == syscall.SYS_PWRITE64 {
			off = int(c.a[3])
		}
		if f.flags&syscall.O_APPEND != 0 {
			off = len(f.ino.Data)
		}
		b := buf(c.a[1], c.a[2])
		if len(b) > 0 {
			f.ino.write(off, b)
			f.ino.MTime = k.Clock
		}
		if c.trap != syscall.SYS_PWRITE64 {
			f.off = off + len(b)
		}
		return uintptr(len(b)), 0
	case "lseek":
		off := int(int64(c.a[1]))
		switch c.a[2] {
		case 1:
			off += f.off
		case 2:
			off += len(f.ino.Data)
		}
		if off < 0 {
			return 0, syscall.EINVAL
		}
		f.off = off
		if off == 0 {
			f.dirPos = nil
		}
		return uintptr(off), 0
	case "fstat":
		k.fillStat((*syscall.Stat_t)(unsafe.Pointer(c.a[1])), f.ino)
		return 0, 0
	case "stat":
		var n *Inode
		var e syscall.Errno
		if c.path == "" && c.flags&atEmptyPath != 0 {
			n = at
		} else {
			_, _, n, e = fs.lookup(p, at, c.path, c.flags&atNoFollow == 0)
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
		}
		if e != 0 {
			return 0, e
		}
		st := c.a[2]
		if c.trap != 262 {
			st = c.a[1]
		}
		k.fillStat((*syscall.Stat_t)(unsafe.Pointer(st)), n)
		return 0, 0
	case "getdents":
		if f.ino.Kind != KDir {
			return 0, syscall.ENOTDIR
		}
		if f.dirPos == nil {
			var names []string
			for n := range f.ino.Ents {
				names = append(names, n)
			}
			sort.Strings(names)
			ds := k.DirSeed
			if ds != 0 {
				key := func(s string) uint64 {
					h := ds
					for i := 0; i < len(s); i++ {
						h = Mix(h ^ uint64(s[i]))
					}
					return h
				}
				sort.Slice(names, func(i, j int) bool { return key(names[i]) < key(names[j]) })
			}
			f.dirPos = append([]string{".", ".."}, names...)
			f.off = 0
		}
		b := buf(c.a[1], c.a[2])
		w := 0
		for f.off < len(f.dirPos) {
			name := f.dirPos[f.off]
			ino := f.ino
			if name != "." && name != ".." {
				ino = f.ino.Ents[name]
				if ino == nil { // removed meanwhile
					f.off++
					continue
				}
			}
			sz := (19 + len(name) + 1 + 7) &^ 7
			if w+sz > len(b) {
				break
			}
			binary.LittleEndian.PutUint64(b[w:], uint64(ino.ID))
			binary.LittleEndian.PutUint64(b[w+8:], uint64(f.off+1))
			binary.LittleEndian.PutUint16(b[w+16:], uint16(sz))
			typ := byte(8)
			switch ino.Kind {
			case KDir:
				typ = 4
			case KLink:
				typ = 10
			}
			if k.DirSeed&3 == 3 {
				typ = 0 // DT_UNKNOWN, as some file systems answer
			}
			b[w+18] = typ
			copy(b[w+19:], name)
			for i := w + 19 + len(name); i < w+sz; i++ {
				b[i] = 0
			}
			w += sz
			f.off++
		}
		return uintptr(w), 0
	case "mkdir":
		d, name, n, e := fs.lookup(p, at, strings.TrimRight(c.path, "/"), false)
		if strings.Trim(c.path, "/") == "" && c.path != "" {
			return 0, syscall.EEXIST
		}
		if e != 0 {
			return 0, e
		}
		if n != nil {
			return 0, syscall.EEXIST
		}
		if !p.may(d, 3) {
			return 0, syscall.EACCES
		}
		n = fs.newInode(KDir, c.mode&^p.Umask)
		n.Nlink = 0
		n.MTime = k.Clock
		fs.do(mop{dir: d, name: name, ino: n})
		return 0, 0
	case "unlink":
		d, name, n, e := fs.lookup(p, at, strings.TrimRight(c.path, "/"), false)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if c.flags&atRemoveDir != 0 {
			if n.Kind != KDir {
				return 0, syscall.ENOTDIR
			}
			if len(n.Ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		} else if n.Kind == KDir {
			return 0, syscall.EISDIR
		}
		if !p.may(d, 3) {
			return 0, syscall.EACCES
		}
		fs.do(mop{dir: d, name: name})
		return 0, 0
	case "rename":
		d1, n1, a, e := fs.lookup(p, at, strings.TrimRight(c.path, "/"), false)
		if e != 0 {
			return 0, e
		}
		if a == nil {
			return 0, syscall.ENOENT
		}
		at2 := p.at(c.dirfd2)
		if at2 == nil && c.path2 != "" && c.path2[0] != '/' {
			return 0, syscall.EBADF
		}
		d2, n2, b, e := fs.lookup(p, at2, strings.TrimRight(c.path2, "/"), false)
		if e != 0 {
			return 0, e
		}
		if c.trap == 316 && c.flags&1 != 0 && b != nil {
			return 0, syscall.EEXIST
		}
		if c.trap == 316 && c.flags&^1 != 0 {
			return 0, syscall.EINVAL
		}
		if a == b {
			return 0, 0
		}
		if b != nil {
			if b.Kind == KDir && a.Kind != KDir {
				return 0, syscall.EISDIR
			}
			if b.Kind != KDir && a.Kind == KDir {
				return 0, syscall.ENOTDIR
			}
			if b.Kind == KDir && len(b.Ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		}
		if !p.may(d1, 3) || !p.may(d2, 3) {
			return 0, syscall.EACCES
		}
		fs.do(mop{dir: d2, name: n2, ino: a, dir2: d1, nam2: n1})
		return 0, 0
	case "link":
		_, _, a, e := fs.lookup(p, at, c.path, c.flags&0x400 != 0)
		if e != 0 {
			return 0, e
		}
		if a == nil {
			return 0, syscall.ENOENT
		}
		if a.Kind == KDir {
			return 0, syscall.EPERM
		}
		at2 := p.at(c.dirfd2)
		if at2 == nil && c.path2 != "" && c.path2[0] != '/' {
			return 0, syscall.EBADF
		}
		d2, n2, b, e := fs.lookup(p, at2, c.path2, false)
		if e != 0 {
			return 0, e
		}
		if b != nil {
			return 0, syscall.EEXIST
		}
		if !p.may(d2, 3) {
			return 0, syscall.EACCES
		}
		fs.do(mop{dir: d2, name: n2, ino: a})
		return 0, 0
	case "symlink":
		d, name, n, e := fs.lookup(p, at, c.path, false)
		if e != 0 {
			return 0, e
		}
		if n != nil {
			return 0, syscall.EEXIST
		}
		if !p.may(d, 3) {
			return 0, syscall.EACCES
		}
		n = fs.newInode(KLink, 0777)
		n.Target = c.path2
		fs.do(mop{dir: d, name: name, ino: n})
		return 0, 0
	case "readlink":
		_, _, n, e := fs.lookup(p, at, c.path, false)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if n.Kind != KLink {
			return 0, syscall.EINVAL
		}
		return uintptr(copy(buf(c.a[2], c.a[3]), n.Target)), 0
	case "fsync":
		if f.ino.Kind == KFile {
			fs.syncFile(f.ino)
		} else {
			fs.synced = len(fs.journal)
		}
		return 0, 0
	case "sync":
		fs.syncAll()
		return 0, 0
	case "truncate":
		n := (*Inode)(nil)
		if f != nil {
			n = f.ino
			if f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
				return 0, syscall.EINVAL
			}
		} else {
			var e syscall.Errno
			_, _, n, e = fs.lookup(p, at, c.path, true)
			if e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
			if !p.may(n, 2) {
				return 0, syscall.EACCES
			}
		}
		if n.Kind != KFile {
			return 0, syscall.EISDIR
		}
		n.truncate(int(c.a[1]))
		n.MTime = k.Clock
		return 0, 0
	case "getcwd":
		s, ok := fs.pathOf(p.Cwd)
		if !ok {
			return 0, syscall.ENOENT
		}
		b := buf(c.a[0], c.a[1])
		if len(b) < len(s)+1 {
			return 0, syscall.ERANGE
		}
		copy(b, s)
		b[len(s)] = 0
		return uintptr(len(s) + 1), 0
	case "chdir":
		_, _, n, e := fs.lookup(p, at, c.path, true)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if n.Kind != KDir {
			return 0, syscall.ENOTDIR
		}
		p.Cwd = n
		return 0, 0
	case "fcntl":
		// F_GETFL/F_SETFL fail, which keeps os.File from using the poller
		if c.a[1] == syscall.F_GETFL {
			return 0, syscall.EBADF
		}
		return 0, syscall.EINVAL
	case "ioctl":
		return 0, syscall.ENOTTY
	case "flock":
		return 0, 0
	case "chmod":
		n := (*Inode)(nil)
		if f != nil {
			n = f.ino
		} else {
			var e syscall.Errno
			_, _, n, e = fs.lookup(p, at, c.path, true)
			if e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
		}
		n.Mode = c.mode & 07777
		return 0, 0
	case "access":
		_, _, n, e := fs.lookup(p, at, c.path, true)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		if !p.may(n, c.mode&7) {
			return 0, syscall.EACCES
		}
		return 0, 0
	case "utimes":
		return 0, 0
	}
	return 0, syscall.ENOSYS
}
