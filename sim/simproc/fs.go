// Package simproc gives simulated threads an operating system: processes with
// a file system in memory, where every system call is an operation at which
// faults are injected and the process or the machine may die. It is reached
// through the system-call seam of the standard library overlay, so whatever
// way the code under test does its I/O, it ends here.
package simproc

import (
	"fmt"
	"hash/fnv"
	"path"
	"sort"
	"strings"
)

type kind uint8

const (
	kFile kind = iota
	kDir
	kLink
)

type inode struct {
	ino    uint64
	kind   kind
	mode   uint32
	data   []byte
	target string
	ents   map[string]*inode
	nlink  int
	mtime  int64
	durIno *inode // its durable state, nil if it has none
}

// FS is a file system. What has not been synced may be lost with power.
type FS struct {
	root    *inode
	next    uint64
	dur     *inode // durable tree as of the last Settle
	log     []logOp
	orphans []*inode // durable, but perhaps without a durable name

	NoSpace, Dead, ReadOnly bool // conditions that stay
}

// logOp is an operation that may not have reached the disk.
type logOp struct {
	what string // data trunc link unlink
	node *inode // changed file, or directory
	off  int64
	data []byte
	size int64
	name string
	to   *inode
}

func NewFS() *FS {
	f := &FS{next: 2}
	f.root = f.mk(kDir, 0o755)
	f.Settle()
	return f
}

func (f *FS) mk(k kind, mode uint32) *inode {
	f.next++
	n := &inode{ino: f.next, kind: k, mode: mode, nlink: 1}
	if k == kDir {
		n.ents = map[string]*inode{}
	}
	return n
}

// clone copies a tree; m maps old nodes to new ones (hard links stay).
func clone(n *inode, m map[*inode]*inode) *inode {
	if c := m[n]; c != nil {
		return c
	}
	c := *n
	c.data = append([]byte(nil), n.data...)
	c.durIno = nil
	m[n] = &c
	if n.ents != nil {
		c.ents = make(map[string]*inode, len(n.ents))
		for k, v := range n.ents {
			c.ents[k] = clone(v, m)
		}
	}
	return &c
}

// Clone copies the file system; everything in the copy is durable.
func (f *FS) Clone() *FS {
	g := &FS{next: f.next, root: clone(f.root, map[*inode]*inode{})}
	g.Settle()
	return g
}

// Settle makes everything durable.
func (f *FS) Settle() {
	m := map[*inode]*inode{}
	f.dur = clone(f.root, m)
	for o, n := range m {
		o.durIno = n
	}
	f.log, f.orphans = nil, nil
}

// PowerLoss rebuilds the tree from what is durable and those unsynced
// operations that the function lets through: 0 keep, 1 lose, more: a torn
// write, of which the value chooses the blocks that were written.
func (f *FS) PowerLoss(fate func(desc string, write bool) int) {
	m := map[*inode]*inode{}
	clone(f.dur, m)
	for _, o := range f.orphans {
		clone(o, m)
	}
	// live node -> its image after the loss
	img := map[*inode]*inode{}
	image := func(n *inode) *inode {
		if x := img[n]; x != nil {
			return x
		}
		var x *inode
		if n.durIno != nil && m[n.durIno] != nil {
			x = m[n.durIno]
		} else {
			c := *n
			c.data = nil
			c.durIno = nil
			if n.kind == kDir {
				c.ents = map[string]*inode{}
			}
			x = &c
		}
		img[n] = x
		return x
	}
	for _, o := range f.log {
		k := fate(fmt.Sprintf("%s %s %d+%d", o.what, o.name, o.off, len(o.data)), o.what == "data")
		if k == 1 {
			continue
		}
		x := image(o.node)
		switch o.what {
		case "data":
			const block = 512
			d := o.data
			for i := 0; i < len(d); i += block {
				e := min(i+block, len(d))
				if k > 1 && (uint64(k)*0x9e3779b97f4a7c15>>(20+uint(i/block)%40))&1 == 1 {
					if k%3 != 0 {
						continue // neither written nor counted
					}
					// the size reached the disk, the block did not
					x.data = grow(x.data, o.off+int64(e))
					continue
				}
				x.data = grow(x.data, o.off+int64(e))
				copy(x.data[o.off+int64(i):], d[i:e])
			}
		case "trunc":
			x.data = resize(x.data, o.size)
		case "link":
			x.ents[o.name] = image(o.to)
		case "unlink":
			delete(x.ents, o.name)
		}
	}
	f.root = image(f.root)
	f.NoSpace, f.Dead, f.ReadOnly = false, false, false
	f.Settle()
}

func grow(b []byte, n int64) []byte {
	for int64(len(b)) < n {
		b = append(b, make([]byte, n-int64(len(b)))...)
	}
	return b
}

func resize(b []byte, n int64) []byte {
	if n <= int64(len(b)) {
		return b[:n:n]
	}
	return grow(b, n)
}

// ---- paths -----------------------------------------------------------------

// walk finds the node of an absolute path, the directory it is (or would be)
// in and its name there.
func (f *FS) walk(p string, follow bool, depth int) (dir *inode, name string, n *inode, err errno) {
	if depth > 20 {
		return nil, "", nil, eLOOP
	}
	if len(p) >= 4096 {
		return nil, "", nil, eNAMETOOLONG
	}
	cur := f.root
	stack := []*inode{}
	at := "/"
	parts := strings.Split(strings.Trim(p, "/"), "/")
	trailing := strings.HasSuffix(p, "/") && strings.Trim(p, "/") != ""
	for i := 0; i < len(parts); i++ {
		s := parts[i]
		if s == "" || s == "." {
			continue
		}
		if cur.kind != kDir {
			return nil, "", nil, eNOTDIR
		}
		if s == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
			at = path.Dir(at)
			continue
		}
		if len(s) > 255 {
			return nil, "", nil, eNAMETOOLONG
		}
		x := cur.ents[s]
		last := true
		for _, r := range parts[i+1:] {
			if r != "" && r != "." {
				last = false
			}
		}
		if x == nil {
			if last {
				return cur, s, nil, 0
			}
			return nil, "", nil, eNOENT
		}
		if x.kind == kLink && (!last || follow || trailing) {
			t := x.target
			if !path.IsAbs(t) {
				t = path.Join(at, t)
			}
			return f.walk(path.Join(append([]string{t}, parts[i+1:]...)...), follow, depth+1)
		}
		if last {
			if trailing && x.kind != kDir {
				return nil, "", nil, eNOTDIR
			}
			return cur, s, x, 0
		}
		stack = append(stack, cur)
		cur = x
		at = path.Join(at, s)
	}
	return nil, "", cur, 0
}

// ---- access for the harness ------------------------------------------------

// MkdirAll makes directories, durably once settled; nil if a file is in the way.
func (f *FS) MkdirAll(p string) *inode {
	cur := f.root
	for _, s := range strings.Split(strings.Trim(path.Clean(p), "/"), "/") {
		if s == "" {
			continue
		}
		x := cur.ents[s]
		if x == nil {
			x = f.mk(kDir, 0o755)
			cur.ents[s] = x
		}
		if x.kind != kDir {
			return nil
		}
		cur = x
	}
	return cur
}

// Put writes a file, replacing what is there.
func (f *FS) Put(p string, b []byte, mode uint32) {
	d := f.MkdirAll(path.Dir(p))
	if d == nil {
		return
	}
	n := f.mk(kFile, mode)
	n.data = append([]byte(nil), b...)
	d.ents[path.Base(p)] = n
}

// PutTime sets a file's modification time.
func (f *FS) PutTime(p string, ns int64) {
	if _, _, n, e := f.walk(p, true, 0); e == 0 && n != nil {
		n.mtime = ns
	}
}

// Symlink makes a symbolic link.
func (f *FS) Symlink(target, p string) {
	d := f.MkdirAll(path.Dir(p))
	if d == nil {
		return
	}
	n := f.mk(kLink, 0o777)
	n.target = target
	d.ents[path.Base(p)] = n
}

// Remove takes an entry away.
func (f *FS) Remove(p string) {
	if d, s, n, e := f.walk(p, false, 0); e == 0 && n != nil && d != nil {
		delete(d.ents, s)
	}
}

// RemoveAll takes an entry and everything below it away.
func (f *FS) RemoveAll(p string) { f.Remove(p) }

// Read returns a file's contents.
func (f *FS) Read(p string) ([]byte, bool) {
	_, _, n, e := f.walk(p, true, 0)
	if e != 0 || n == nil || n.kind != kFile {
		return nil, false
	}
	return n.data, true
}

// Exists says if there is something.
func (f *FS) Exists(p string) bool {
	_, _, n, e := f.walk(p, false, 0)
	return e == 0 && n != nil
}

// Files lists all files and links with a description of their contents and mode.
func (f *FS) Files() map[string]string {
	out := map[string]string{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		switch n.kind {
		case kDir:
			for k, x := range n.ents {
				rec(p+"/"+k, x)
			}
		case kFile:
			h := fnv.New64a()
			h.Write(n.data)
			out[p] = fmt.Sprintf("%o %d bytes %x", n.mode, len(n.data), h.Sum64())
		case kLink:
			out[p] = "-> " + n.target
		}
	}
	rec("", f.root)
	return out
}

// Dirs lists all directories.
func (f *FS) Dirs() map[string]bool {
	out := map[string]bool{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		if n.kind == kDir {
			out[p] = true
			for k, x := range n.ents {
				rec(p+"/"+k, x)
			}
		}
	}
	rec("", f.root)
	return out
}

func names(n *inode) []string {
	var out []string
	for k := range n.ents {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
