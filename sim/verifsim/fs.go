package verifsim

import (
	"sort"
	"syscall"
)

// Inode kinds.
const (
	KFile = iota
	KDir
	KLink
)

// wop is one data operation not yet made durable.
type wop struct {
	off   int
	data  []byte
	trunc int // -1 for a write
}

// Inode is a file, directory or symbolic link of the simulated file system.
type Inode struct {
	ID       int
	Kind     int
	Mode     uint32
	Data     []byte
	Target   string
	Ents     map[string]*Inode
	Parent   *Inode
	Nlink    int
	MTime    int64
	Sizeless bool // stat reports no size, as on proc and some network file systems

	base []byte // durable content
	wops []wop  // operations since it was last durable
	lost bool   // write-back failed: what is in memory never reaches the disk
}

// mop is one directory operation in the metadata journal. The journal is
// ordered: after a power loss a prefix of it survives.
type mop struct {
	dir  *Inode
	name string
	ino  *Inode // nil: remove
	dir2 *Inode // rename: also remove name2 from dir2
	nam2 string
}

// FS is the simulated disk.
type FS struct {
	Root    *Inode
	nextIno int
	journal []mop
	synced  int
}

func newFS() *FS {
	f := &FS{}
	f.Root = f.newInode(KDir, 0755)
	f.Root.Parent = f.Root
	return f
}

func (f *FS) newInode(kind int, mode uint32) *Inode {
	f.nextIno++
	n := &Inode{ID: f.nextIno, Kind: kind, Mode: mode & 07777}
	if kind == KDir {
		n.Ents = map[string]*Inode{}
		n.Nlink = 1
	}
	return n
}

func (f *FS) apply(m mop) {
	if m.ino == nil {
		if o := m.dir.Ents[m.name]; o != nil {
			o.Nlink--
		}
		delete(m.dir.Ents, m.name)
		return
	}
	if o := m.dir.Ents[m.name]; o != nil {
		o.Nlink--
	}
	if m.dir2 != nil {
		delete(m.dir2.Ents, m.nam2)
		m.ino.Nlink--
	}
	m.dir.Ents[m.name] = m.ino
	m.ino.Nlink++
	if m.ino.Kind == KDir {
		m.ino.Parent = m.dir
	}
}

func (f *FS) do(m mop) {
	f.journal = append(f.journal, m)
	f.apply(m)
}

func (n *Inode) write(off int, b []byte) {
	n.wops = append(n.wops, wop{off, append([]byte(nil), b...), -1})
	n.Data = applyW(n.Data, n.wops[len(n.wops)-1])
}

func (n *Inode) truncate(size int) {
	if size == len(n.Data) {
		return
	}
	n.wops = append(n.wops, wop{0, nil, size})
	n.Data = applyW(n.Data, n.wops[len(n.wops)-1])
}

func applyW(d []byte, w wop) []byte {
	out := append([]byte(nil), d...)
	if w.trunc >= 0 {
		for len(out) < w.trunc {
			out = append(out, 0)
		}
		return out[:w.trunc]
	}
	for len(out) < w.off+len(w.data) {
		out = append(out, 0)
	}
	copy(out[w.off:], w.data)
	return out
}

func (f *FS) syncFile(n *Inode) {
	if !n.lost {
		n.base = n.Data
		n.wops = nil
	}
	f.synced = len(f.journal)
}

// writebackFailed is what a failing fsync or close means for data not yet on
// disk: the kernel reports the error once and gives the data up. It may go on
// showing the data from memory, or drop it at once, from some byte on.
func (f *FS) writebackFailed(n *Inode, arg int) {
	if n == nil || n.Kind != KFile || len(n.wops) == 0 {
		return
	}
	n.lost = true
	if arg%2 == 1 {
		keep := arg / 2 % 100 * len(n.Data) / 100
		d := append([]byte(nil), n.Data[:keep]...)
		if len(n.base) > keep {
			d = append(d, n.base[keep:]...)
		}
		n.Data = d
	}
}

func (f *FS) syncAll() {
	f.walk(func(_ string, n *Inode) { n.base = n.Data; n.wops, n.lost = nil, false })
	f.synced = len(f.journal)
}

func (f *FS) walk(fn func(path string, n *Inode)) {
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		fn(p, n)
		if n.Kind == KDir {
			var names []string
			for k := range n.Ents {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				rec(p+"/"+k, n.Ents[k])
			}
		}
	}
	rec("", f.Root)
}

// PowerLoss discards what was not durable. The chooser decides how much of the
// metadata journal and of each file's unsynced writes had reached the disk.
func (f *FS) PowerLoss(ch *Chooser) {
	// every inode ever linked, for resetting directories
	seen := map[*Inode]bool{f.Root: true}
	all := []*Inode{f.Root}
	for _, m := range f.journal {
		if m.ino != nil && !seen[m.ino] {
			seen[m.ino] = true
			all = append(all, m.ino)
		}
	}
	n := len(f.journal)
	if f.synced < n {
		// 0 = everything reached the disk
		n -= ch.N(n - f.synced + 1)
	}
	for _, i := range all {
		if i.Kind == KDir {
			i.Ents = map[string]*Inode{}
		}
		i.Nlink = 0
	}
	f.Root.Nlink = 1
	j := f.journal[:n]
	f.journal = nil
	for _, m := range j {
		f.do(m)
	}
	f.synced = len(f.journal)
	for _, i := range all {
		if i.Kind != KFile || len(i.wops) == 0 {
			continue
		}
		if i.Nlink > 0 {
			how := 1
			if !i.lost {
				how = ch.N(4)
			}
			switch how {
			case 0: // all of it reached the disk
			case 1: // none of it
				i.Data = i.base
			case 2: // a prefix of the writes, the last one torn
				k := ch.N(len(i.wops) + 1)
				d := i.base
				for _, w := range i.wops[:k] {
					d = applyW(d, w)
				}
				if k < len(i.wops) && i.wops[k].trunc < 0 {
					w := i.wops[k]
					d = applyW(d, wop{w.off, w.data[:ch.N(len(w.data)+1)], -1})
				}
				i.Data = d
			case 3: // the new size, but zeros where the data was not written back
				d := make([]byte, len(i.Data))
				copy(d, i.base)
				i.Data = d
			}
		}
		i.base, i.wops, i.lost = i.Data, nil, false
	}
}

// Wipe restores full durability of the present state (a clean unmount).
func (f *FS) Wipe() { f.syncAll() }

// ---- path resolution ----

func splitPath(p string) []string {
	var out []string
	i := 0
	for i < len(p) {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		if j > i {
			out = append(out, p[i:j])
		}
		i = j
	}
	return out
}

// lookup resolves path. It returns the containing directory and final name as
// well, so that callers can create or remove the entry.
func (f *FS) lookup(p *Proc, at *Inode, path string, follow bool) (dir *Inode, name string, n *Inode, e syscall.Errno) {
	depth := 0
	return f.look(p, at, path, follow, &depth)
}

func (f *FS) look(p *Proc, at *Inode, path string, follow bool, depth *int) (dir *Inode, name string, n *Inode, e syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if path[0] == '/' {
		at = f.Root
	}
	parts := splitPath(path)
	if len(parts) == 0 {
		return at, ".", at, 0
	}
	mustDir := path[len(path)-1] == '/'
	d := at
	for i, c := range parts {
		lastc := i == len(parts)-1
		if d.Kind != KDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if d.Nlink == 0 && d != f.Root {
			return nil, "", nil, syscall.ENOENT
		}
		if p != nil && p.UID != 0 && d.Mode&0100 == 0 {
			return nil, "", nil, syscall.EACCES
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		var nx *Inode
		switch c {
		case ".":
			nx = d
		case "..":
			nx = d.Parent
		default:
			nx = d.Ents[c]
		}
		if nx == nil {
			if lastc {
				return d, c, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		if nx.Kind == KLink && (!lastc || follow || mustDir) {
			*depth++
			if *depth > 40 {
				return nil, "", nil, syscall.ELOOP
			}
			if lastc {
				return f.look(p, d, nx.Target, true, depth)
			}
			_, _, t, e := f.look(p, d, nx.Target, true, depth)
			if e != 0 {
				return nil, "", nil, e
			}
			if t == nil {
				return nil, "", nil, syscall.ENOENT
			}
			nx = t
		}
		if lastc {
			if mustDir && nx.Kind != KDir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return d, c, nx, 0
		}
		d = nx
	}
	return nil, "", nil, syscall.EINVAL
}

// ---- harness access (no faults, no scheduling) ----

// Get returns the inode at path without following a final link.
func (f *FS) Get(path string) *Inode {
	_, _, n, e := f.lookup(nil, f.Root, path, false)
	if e != 0 {
		return nil
	}
	return n
}

// ReadFile returns the content at path, following links.
func (f *FS) ReadFile(path string) ([]byte, bool) {
	_, _, n, e := f.lookup(nil, f.Root, path, true)
	if e != 0 || n == nil || n.Kind != KFile {
		return nil, false
	}
	return n.Data, true
}

// Real gives the path that path leads to: clean, and with no link among the
// directories that exist. What does not exist stays as it is.
func (f *FS) Real(path string) string { return f.real(path, 0) }

func (f *FS) real(path string, depth int) string {
	var at []string
	d := f.Root
	parts := splitPath(path)
	for i, c := range parts {
		switch c {
		case ".":
			continue
		case "..":
			if len(at) > 0 {
				at = at[:len(at)-1]
			}
			d = f.Get("/" + join(at))
			continue
		}
		at = append(at, c)
		if d == nil || d.Kind != KDir {
			d = nil
			continue
		}
		n := d.Ents[c]
		if n != nil && n.Kind == KLink && depth < 40 {
			to := n.Target
			if to == "" || to[0] != '/' {
				to = "/" + join(at[:len(at)-1]) + "/" + to
			}
			for _, r := range parts[i+1:] {
				to += "/" + r
			}
			return f.real(to, depth+1)
		}
		d = n
	}
	return "/" + join(at)
}

func join(l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += "/"
		}
		s += x
	}
	return s
}

// MkdirAll creates directories.
func (f *FS) MkdirAll(path string) *Inode {
	d := f.Root
	for _, c := range splitPath(f.Real(path)) {
		n := d.Ents[c]
		if n == nil {
			n = f.newInode(KDir, 0755)
			n.Nlink = 0
			f.do(mop{dir: d, name: c, ino: n})
		}
		d = n
	}
	return d
}

func dirBase(path string) (string, string) {
	i := len(path) - 1
	for i >= 0 && path[i] != '/' {
		i--
	}
	if i < 0 {
		return "", path
	}
	return path[:i], path[i+1:]
}

// Put writes a new inode at path (an atomic replacement), durable at once.
func (f *FS) Put(path string, data []byte) *Inode {
	dp, b := dirBase(path)
	d := f.MkdirAll(dp)
	n := f.newInode(KFile, 0644)
	n.Data = append([]byte(nil), data...)
	n.base = n.Data
	f.do(mop{dir: d, name: b, ino: n})
	f.synced = len(f.journal) // the journal is ordered
	return n
}

// Symlink creates a symbolic link, durable at once.
func (f *FS) Symlink(path, target string) *Inode {
	dp, b := dirBase(path)
	d := f.MkdirAll(dp)
	n := f.newInode(KLink, 0777)
	n.Target = target
	f.do(mop{dir: d, name: b, ino: n})
	f.synced = len(f.journal)
	return n
}

// Remove unlinks path.
func (f *FS) Remove(path string) {
	dp, b := dirBase(path)
	_, _, d, e := f.lookup(nil, f.Root, dp+"/", true)
	if e != 0 || d == nil || d.Ents[b] == nil {
		return
	}
	f.do(mop{dir: d, name: b})
}

// Move renames a directory or file.
func (f *FS) Move(from, to string) {
	dp, b := dirBase(from)
	_, _, d, e := f.lookup(nil, f.Root, dp+"/", true)
	if e != 0 || d == nil || d.Ents[b] == nil {
		return
	}
	n := d.Ents[b]
	tp, tb := dirBase(to)
	td := f.MkdirAll(tp)
	f.do(mop{dir: td, name: tb, ino: n, dir2: d, nam2: b})
	f.synced = len(f.journal)
}

// Entry is one line of a snapshot.
type Entry struct {
	Kind int
	Mode uint32
	ID   int
	Data string
}

// Size is how much all files hold.
func (f *FS) Size() (n int) {
	f.walk(func(_ string, i *Inode) { n += len(i.Data) })
	return
}

// Snapshot lists every path with its kind and content.
func (f *FS) Snapshot() map[string]Entry {
	out := map[string]Entry{}
	f.walk(func(p string, n *Inode) {
		e := Entry{Kind: n.Kind, Mode: n.Mode, ID: n.ID}
		if n.Kind == KFile {
			e.Data = string(n.Data)
		} else if n.Kind == KLink {
			e.Data = n.Target
		}
		if p == "" {
			p = "/"
		}
		out[p] = e
	})
	return out
}

// Clone copies the present state of the disk into a fresh, durable one.
func (f *FS) Clone() *FS {
	g := newFS()
	m := map[*Inode]*Inode{}
	var rec func(src, dst *Inode)
	rec = func(src, dst *Inode) {
		m[src] = dst
		var names []string
		for k := range src.Ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			c := src.Ents[k]
			if x := m[c]; x != nil {
				g.do(mop{dir: dst, name: k, ino: x})
				continue
			}
			n := g.newInode(c.Kind, c.Mode)
			n.Nlink = 0
			n.Data = c.Data
			n.base = n.Data
			n.Target = c.Target
			n.Sizeless = c.Sizeless
			m[c] = n
			g.do(mop{dir: dst, name: k, ino: n})
			if c.Kind == KDir {
				rec(c, n)
			}
		}
	}
	rec(f.Root, g.Root)
	g.synced = len(g.journal)
	return g
}
