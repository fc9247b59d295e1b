package simproc

import (
	"encoding/binary"
	"fmt"
	"os"
	"path"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/sim/simrt"
)

type errno = syscall.Errno

const (
	eLOOP        = syscall.ELOOP
	eNAMETOOLONG = syscall.ENAMETOOLONG
	eNOTDIR      = syscall.ENOTDIR
	eNOENT       = syscall.ENOENT
)

// Faults says what may go wrong in a process.
type Faults struct {
	P      float64 // probability per system call
	Benign bool    // short transfers, interrupted calls
	Errors bool    // failing calls
	Sticky bool    // conditions that stay: disk full, device gone, read-only
	Kill   bool    // the process is killed
	Power  bool    // the machine loses power
	Only   string  // only at calls whose description starts so
}

// Event is a system call with what was injected, for traces.
type Event struct {
	Text   string
	Inject string
}

type ofile struct {
	n      *inode
	path   string
	flags  int
	pos    int64
	listed []string // directory entries not yet returned
	read   bool
}

// Proc is a simulated process. Its threads share it.
type Proc struct {
	FS     *FS
	Cwd    string
	Pid    int
	Clock  int64 // offset of its clock, ns
	Rand   uint64
	Faults Faults
	Input  func(p string) bool // is an input file
	Root   bool                // runs as root: permission bits do not bind
	Env    [64]string          // environment variables, K=V
	Asked  [64]string          // variables looked up

	Exited  bool // by os.Exit
	Code    int
	Killed  string // kill, power
	Stderr  []byte
	Stdout  []byte
	Ops     int
	Trace   []Event
	Hard    []string         // failures injected where the run must report them
	Soft    int              // other failures injected
	Injects map[string]int64 // by kind
	Unknown map[string]int64 // system calls that are not simulated

	kernel byte // stands for the order in which the kernel serves the process's threads
	fds    map[int]*ofile
	umask  uint32
	nrand  uint64
}

const fdBase = 1 << 20

var (
	procs  [simrt.MaxThreads]*Proc
	nextFD = fdBase
)

// Attach makes the thread with this id, and those it starts, belong to p (nil: none).
//
//go:norace
func Attach(id int, p *Proc) { procs[id] = p }

//go:norace
func current() *Proc {
	if !simrt.Active() {
		return nil
	}
	id := simrt.Group()
	if id < 0 {
		return nil
	}
	return procs[id]
}

// End stops the threads that a process or job, whose first thread has this id
// and has ended, left behind.
func End(id int) {
	simrt.KillGroup(id)
	if procs[id] != nil {
		procs[id].enter()
	}
	procs[id] = nil
}

func init() {
	simrt.OnPanic = func(t *simrt.Thread) {
		p := current()
		if p == nil || p.Exited || p.Killed != "" {
			return
		}
		if t.ID != simrt.Group() { // otherwise the caller sees to it
			v, stk := t.Panicked()
			p.Stderr = append(p.Stderr, fmt.Sprintf("panic: %v\n\n%s", v, stk)...)
			p.Exited, p.Code = true, 2
		}
		simrt.KillGroup(simrt.Group())
	}
}

// booting is the process that is being started and has no thread yet.
var booting *Proc

// Boot lets the initialisation of packages run as that of a process.
func Boot(p *Proc, init func()) {
	booting = p
	defer func() { booting = nil }()
	init()
}

//go:norace
func asking() *Proc {
	if p := current(); p != nil {
		return p
	}
	return booting
}

//go:norace
func getenv(key string) (string, bool, bool) {
	p := asking()
	if p == nil {
		return "", false, false
	}
	for i := range p.Asked {
		if p.Asked[i] == "" {
			p.Asked[i] = key
		}
		if p.Asked[i] == key {
			break
		}
	}
	if i := p.envIndex(key); i >= 0 && p.Env[i] != "" {
		return p.Env[i][len(key)+1:], true, true
	}
	return "", false, true
}

// envIndex is where the variable is, or could be; -1 if there is no room.
//
//go:norace
func (p *Proc) envIndex(key string) int {
	free := -1
	for i := range p.Env {
		e := p.Env[i]
		if e == "" && free < 0 {
			free = i
		}
		if len(e) > len(key) && e[len(key)] == '=' && e[:len(key)] == key {
			return i
		}
	}
	return free
}

//go:norace
func setenv(key, value string, set bool) bool {
	p := asking()
	if p == nil {
		return false
	}
	p.Setenv(key, value, set)
	return true
}

// Setenv sets or removes a variable.
//
//go:norace
func (p *Proc) Setenv(key, value string, set bool) {
	if i := p.envIndex(key); i >= 0 {
		p.Env[i] = ""
		if set {
			p.Env[i] = key + "=" + value
		}
	}
}

//go:norace
func environ() ([]string, bool) {
	p := asking()
	if p == nil {
		return nil, false
	}
	n := 0
	l := make([]string, len(p.Env))
	for i := range p.Env {
		if p.Env[i] != "" {
			l[n] = p.Env[i]
			n++
		}
	}
	return l[:n], true
}

// Detach forgets all processes, between runs.
func Detach() {
	for i := range procs {
		procs[i] = nil
	}
}

//go:linkname simSetUserRandFn runtime.simSetUserRandFn
func simSetUserRandFn(f func() uint64)

// Install puts the seams in place.
func Install() {
	syscall.SimHook = hook
	os.SimExit = exit
	syscall.SimGetenv, syscall.SimSetenv, syscall.SimEnviron = getenv, setenv, environ
	time.SimNow = now
	simSetUserRandFn(userRand)
}

//go:norace
func now() int64 {
	p := current()
	if p == nil {
		return 0
	}
	return simrt.NowNS() + p.Clock
}

//go:norace
func userRand() uint64 {
	p := current()
	if p == nil {
		return simrt.Mix(simrt.Seed(), 5)
	}
	p.nrand++
	return simrt.Mix(p.Rand, p.nrand)
}

//go:norace
func exit(code int) {
	p := current()
	if p == nil || simrt.Dead() {
		return
	}
	p.Exited, p.Code = true, code
	simrt.KillGroup(simrt.Group())
	simrt.ExitThread()
}

func (p *Proc) abs(s string) string {
	if path.IsAbs(s) {
		return s
	}
	return p.Cwd + "/" + s
}

func cstr(a uintptr) string {
	b := (*byte)(unsafe.Pointer(a))
	n := 0
	for *(*byte)(unsafe.Add(unsafe.Pointer(b), n)) != 0 {
		n++
	}
	return string(unsafe.Slice(b, n))
}

func mem(a, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(a)), int(n))
}

const nosys = errno(38)

type inject struct {
	name string
	err  errno
	mode int // 1 short, 2 kill before, 3 kill after, 4 power before, 5 power after, 6 sticky no space, 7 device dead, 8 read only, 9 partial write and kill, 10 partial write and power loss, 11 partial then no space
}

var (
	readErrs  = []inject{{"EIO", syscall.EIO, 0}}
	openRErrs = []inject{{"EIO", syscall.EIO, 0}, {"EACCES", syscall.EACCES, 0}, {"EMFILE", syscall.EMFILE, 0}, {"ENFILE", syscall.ENFILE, 0}, {"ENOMEM", syscall.ENOMEM, 0}, {"ESTALE", syscall.ESTALE, 0}}
	openWErrs = []inject{{"EIO", syscall.EIO, 0}, {"EACCES", syscall.EACCES, 0}, {"EMFILE", syscall.EMFILE, 0}, {"ENOSPC", syscall.ENOSPC, 0}, {"EROFS", syscall.EROFS, 0}, {"EDQUOT", syscall.EDQUOT, 0}, {"ETXTBSY", syscall.ETXTBSY, 0}, {"EPERM", syscall.EPERM, 0}}
	writeErrs = []inject{{"EIO", syscall.EIO, 0}, {"ENOSPC", syscall.ENOSPC, 0}, {"EDQUOT", syscall.EDQUOT, 0}, {"EFBIG", syscall.EFBIG, 0}, {"ENOSPC after a part", syscall.ENOSPC, 11}}
	closeErrs = []inject{{"EIO", syscall.EIO, 0}, {"EDQUOT", syscall.EDQUOT, 0}, {"ENOSPC", syscall.ENOSPC, 0}}
	statErrs  = []inject{{"EIO", syscall.EIO, 0}, {"EACCES", syscall.EACCES, 0}, {"ENOMEM", syscall.ENOMEM, 0}, {"ESTALE", syscall.ESTALE, 0}}
	dirErrs   = []inject{{"EIO", syscall.EIO, 0}, {"EACCES", syscall.EACCES, 0}, {"ENOSPC", syscall.ENOSPC, 0}, {"EROFS", syscall.EROFS, 0}, {"EMLINK", syscall.EMLINK, 0}, {"ENOMEM", syscall.ENOMEM, 0}}
	cwdErrs   = []inject{{"ENOENT", syscall.ENOENT, 0}, {"EACCES", syscall.EACCES, 0}}
)

// draw decides what goes wrong at this call.
func (p *Proc) draw(errs []inject, eintr, short, write bool) inject {
	f := &p.Faults
	if f.P == 0 {
		return inject{}
	}
	var l []inject
	if f.Errors {
		l = append(l, errs...)
	}
	if f.Benign {
		if eintr {
			l = append(l, inject{"EINTR", syscall.EINTR, 0})
		}
		if short {
			l = append(l, inject{"short", 0, 1})
		}
	}
	if f.Sticky && f.Errors {
		l = append(l, inject{"disk full", 0, 6}, inject{"device gone", 0, 7}, inject{"read-only", 0, 8})
	}
	if f.Kill {
		l = append(l, inject{"kill before", 0, 2}, inject{"kill after", 0, 3})
		if write {
			l = append(l, inject{"kill within", 0, 9}, inject{"kill within", 0, 9})
		}
	}
	if f.Power {
		l = append(l, inject{"power loss before", 0, 4}, inject{"power loss after", 0, 5})
		if write {
			l = append(l, inject{"power loss within", 0, 10}, inject{"power loss within", 0, 10})
		}
	}
	k := simrt.Choose(simrt.KFault, len(l)+1, f.P)
	if k == 0 || k > len(l) {
		return inject{}
	}
	j := l[k-1]
	p.Injects[j.name]++
	return j
}

// die ends the process now.
func (p *Proc) die(how string) {
	p.Killed = how
	if how == "power" {
		p.FS.PowerLoss(func(desc string, write bool) int {
			n := 2
			if write {
				n = 1000
			}
			return simrt.Choose(simrt.KFault, n, 0.4)
		})
	}
	p.fds = nil
	simrt.KillGroup(simrt.Group())
	simrt.ExitThread()
}

// sticky conditions fail calls without a draw.
func (p *Proc) cond(write bool) errno {
	switch {
	case p.FS.Dead:
		return syscall.EIO
	case write && p.FS.NoSpace:
		return syscall.ENOSPC
	case write && p.FS.ReadOnly:
		return syscall.EROFS
	}
	return 0
}

type call struct {
	p     *Proc
	text  string
	hard  string // what fails if this call does, "" if that need not be reported
	write bool   // needs space and a writable disk
	disk  bool   // touches the disk at all
	errs  []inject
	eintr bool
	short bool
	part  func(frac int) // partial effect of a write
	lose  func()         // what is lost when the call fails
}

// run executes a call with faults. do returns the result.
func (c *call) run(do func(short bool) (uintptr, errno)) (uintptr, errno) {
	p := c.p
	p.Ops++
	p.leave()
	simrt.Yield(5)
	p.enter()
	var j inject
	if strings.HasPrefix(c.text, p.Faults.Only) {
		j = p.draw(c.errs, c.eintr, c.short, c.part != nil)
	}
	ev := Event{Text: c.text, Inject: j.name}
	note := func(r uintptr, e errno) (uintptr, errno) {
		if e != 0 {
			ev.Text += " = " + e.Error()
			r = ^uintptr(0)
		} else {
			ev.Text += fmt.Sprintf(" = %d", int(r))
		}
		p.Trace = append(p.Trace, ev)
		return r, e
	}
	failed := func(e errno) (uintptr, errno) {
		if e != syscall.EINTR {
			if c.hard != "" {
				p.Hard = append(p.Hard, c.hard+": "+e.Error())
			} else {
				p.Soft++
			}
		}
		return note(0, e)
	}
	switch j.mode {
	case 2, 4:
		note(0, syscall.EINTR)
		p.die(map[int]string{2: "kill", 4: "power"}[j.mode])
	case 6:
		p.FS.NoSpace = true
	case 7:
		p.FS.Dead = true
	case 8:
		p.FS.ReadOnly = true
	case 9, 10:
		c.part(1 + simrt.Choose(simrt.KFault, 16, 0.9))
		note(0, syscall.EINTR)
		p.die(map[int]string{9: "kill", 10: "power"}[j.mode])
	case 11:
		c.part(1 + simrt.Choose(simrt.KFault, 16, 0.9))
	}
	if j.err != 0 {
		if c.lose != nil && j.err != syscall.EINTR {
			c.lose()
		}
		return failed(j.err)
	}
	if c.disk {
		if e := p.cond(c.write); e != 0 {
			return failed(e)
		}
	}
	r, e := do(j.mode == 1)
	r, e = note(r, e)
	switch j.mode {
	case 3:
		p.die("kill")
	case 5:
		p.die("power")
	}
	return r, e
}

func (p *Proc) newFD(o *ofile) int {
	if p.fds == nil {
		p.fds = map[int]*ofile{}
	}
	fd := newNumber()
	p.fds[fd] = o
	return fd
}

// newNumber never repeats a number, because a file that is garbage is closed late.
//
//go:norace
func newNumber() int {
	nextFD++
	return nextFD
}

func (p *Proc) stat(n *inode, a uintptr) {
	st := (*syscall.Stat_t)(unsafe.Pointer(a))
	*st = syscall.Stat_t{Dev: 7, Ino: n.ino, Nlink: uint64(n.nlink), Blksize: 4096}
	switch n.kind {
	case kDir:
		st.Mode = syscall.S_IFDIR | n.mode
		st.Size = 4096
	case kLink:
		st.Mode = syscall.S_IFLNK | 0o777
		st.Size = int64(len(n.target))
	default:
		st.Mode = syscall.S_IFREG | n.mode
		st.Size = int64(len(n.data))
		st.Blocks = (st.Size + 511) / 512
	}
	st.Mtim.Sec, st.Mtim.Nsec = n.mtime/1e9, n.mtime%1e9
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func (p *Proc) at(dirfd uintptr, name string) (string, errno) {
	if path.IsAbs(name) {
		return name, 0
	}
	if int32(dirfd) == -100 {
		return p.abs(name), 0
	}
	o := p.fds[int(dirfd)]
	if o == nil {
		return "", syscall.EBADF
	}
	return o.path + "/" + name, 0
}

func ret(r uintptr, e errno) (uintptr, uintptr, errno, bool) { return r, 0, e, true }

func isWrite(flags int) bool {
	return flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
}

func (p *Proc) now() int64 { return simrt.NowNS() + p.Clock }

// enter and leave tell the race detector that the kernel's own data is guarded.
func (p *Proc) enter() { simrt.RaceAcquire(unsafe.Pointer(&p.kernel)) }
func (p *Proc) leave() { simrt.RaceRelease(unsafe.Pointer(&p.kernel)) }

// hook handles the system calls of simulated processes.
func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err errno, ok bool) {
	p := current()
	if p == nil {
		// a file of an earlier run that is closed late
		if trap == syscall.SYS_CLOSE && a1 > fdBase {
			return 0, 0, 0, true
		}
		return 0, 0, 0, false
	}
	if simrt.Dead() {
		return ^uintptr(0), 0, syscall.EIO, true
	}
	p.enter()
	defer p.leave()
	f := p.FS
	switch trap {
	case syscall.SYS_GETPID, syscall.SYS_GETPPID, syscall.SYS_GETTID:
		return ret(uintptr(p.Pid), 0)
	case syscall.SYS_GETUID, syscall.SYS_GETEUID, syscall.SYS_GETGID, syscall.SYS_GETEGID:
		return ret(0, 0)
	case syscall.SYS_UMASK:
		o := p.umask
		p.umask = uint32(a1) & 0o777
		return ret(uintptr(o), 0)

	case syscall.SYS_OPENAT:
		name, e := p.at(a1, cstr(a2))
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		flags := int(a3)
		c := &call{p: p, text: fmt.Sprintf("open %s flags %#x", name, flags), disk: true, eintr: true}
		c.write = isWrite(flags)
		c.errs = openRErrs
		if c.write {
			c.errs = openWErrs
			c.hard = "open " + name + " for writing"
		} else if p.Input != nil && p.Input(path.Clean(name)) {
			c.hard = "open input " + name
		}
		return ret(c.run(func(bool) (uintptr, errno) { return p.open(name, flags, uint32(a4)) }))

	case syscall.SYS_CLOSE:
		o := p.fds[int(a1)]
		if o == nil {
			if a1 > fdBase {
				return 0, 0, 0, true
			}
			return ret(^uintptr(0), syscall.EBADF)
		}
		c := &call{p: p, text: "close " + o.path}
		c.errs = nil
		if isWrite(o.flags) {
			c.hard = "close of written file " + o.path
			c.errs = closeErrs
			// written data that had not gone anywhere yet
			c.lose = func() { o.n.data = o.n.data[:len(o.n.data)*2/3] }
		} else {
			c.errs = readErrs
		}
		delete(p.fds, int(a1))
		return ret(c.run(func(bool) (uintptr, errno) { return 0, 0 }))

	case syscall.SYS_READ, syscall.SYS_PREAD64:
		if a1 == 0 {
			return ret(0, 0)
		}
		o := p.fds[int(a1)]
		if o == nil {
			return ret(^uintptr(0), syscall.EBADF)
		}
		c := &call{p: p, text: fmt.Sprintf("read %s", o.path), disk: true, errs: readErrs, eintr: true, short: true}
		if p.Input != nil && p.Input(path.Clean(o.path)) {
			c.hard = "read input " + o.path
		}
		return ret(c.run(func(short bool) (uintptr, errno) {
			if o.n.kind == kDir {
				return 0, syscall.EISDIR
			}
			if o.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
				return 0, syscall.EBADF
			}
			pos := o.pos
			if trap == syscall.SYS_PREAD64 {
				pos = int64(a4)
			}
			if pos >= int64(len(o.n.data)) {
				return 0, 0
			}
			b := mem(a2, a3)
			src := o.n.data[pos:]
			if short && len(src) > 1 && len(b) > 1 {
				src = src[:1+(int(pos)+7)%min(len(src)-1, len(b)-1, 97)]
			}
			n := copy(b, src)
			if trap == syscall.SYS_READ {
				o.pos += int64(n)
			}
			return uintptr(n), 0
		}))

	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if a1 == 1 || a1 == 2 {
			b := mem(a2, a3)
			c := &call{p: p, text: fmt.Sprintf("write to fd %d: %q", a1, clip(b)), eintr: true}
			return ret(c.run(func(bool) (uintptr, errno) {
				if a1 == 1 {
					p.Stdout = append(p.Stdout, b...)
				} else {
					p.Stderr = append(p.Stderr, b...)
				}
				return a3, 0
			}))
		}
		o := p.fds[int(a1)]
		if o == nil {
			return ret(^uintptr(0), syscall.EBADF)
		}
		b := mem(a2, a3)
		c := &call{p: p, text: fmt.Sprintf("write %s (%d bytes)", o.path, len(b)), disk: true, write: true, errs: writeErrs, eintr: true, short: true}
		c.hard = "write " + o.path
		put := func(b []byte) uintptr {
			pos := o.pos
			if trap == syscall.SYS_PWRITE64 {
				pos = int64(a4)
			} else if o.flags&syscall.O_APPEND != 0 {
				pos = int64(len(o.n.data))
			}
			o.n.data = grow(o.n.data, pos+int64(len(b)))
			copy(o.n.data[pos:], b)
			o.n.mtime = p.now()
			f.log = append(f.log, logOp{what: "data", node: o.n, off: pos, data: append([]byte(nil), b...), name: o.path})
			if trap == syscall.SYS_WRITE {
				o.pos = pos + int64(len(b))
			}
			return uintptr(len(b))
		}
		if o.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return ret(^uintptr(0), syscall.EBADF)
		}
		c.part = func(frac int) { put(b[:len(b)*frac/17]) }
		return ret(c.run(func(short bool) (uintptr, errno) {
			if short && len(b) > 1 {
				b = b[:1+len(b)/3]
			}
			return put(b), 0
		}))

	case syscall.SYS_LSEEK:
		o := p.fds[int(a1)]
		if o == nil {
			return ret(^uintptr(0), syscall.EBADF)
		}
		switch a3 {
		case 0:
			o.pos = int64(a2)
		case 1:
			o.pos += int64(a2)
		case 2:
			o.pos = int64(len(o.n.data)) + int64(a2)
		}
		o.listed, o.read = nil, false
		return ret(uintptr(o.pos), 0)

	case syscall.SYS_FSTAT:
		if a1 < 3 {
			*(*syscall.Stat_t)(unsafe.Pointer(a2)) = syscall.Stat_t{Mode: syscall.S_IFCHR | 0o600, Ino: uint64(a1) + 1}
			return ret(0, 0)
		}
		o := p.fds[int(a1)]
		if o == nil {
			return ret(^uintptr(0), syscall.EBADF)
		}
		c := &call{p: p, text: "fstat " + o.path, disk: true, errs: statErrs, eintr: true}
		c.short = o.n.kind == kFile && !isWrite(o.flags) // an old size, as network file systems report, or none, as pipes do
		return ret(c.run(func(short bool) (uintptr, errno) {
			p.stat(o.n, a2)
			if short {
				st := (*syscall.Stat_t)(unsafe.Pointer(a2))
				st.Size = st.Size * int64(simrt.Choose(simrt.KFault, 8, 0.6)) / 8
			}
			return 0, 0
		}))

	case syscall.SYS_NEWFSTATAT, syscall.SYS_STAT, syscall.SYS_LSTAT:
		var name string
		var e errno
		follow := trap == syscall.SYS_STAT
		buf := a2
		if trap == syscall.SYS_NEWFSTATAT {
			name, e = p.at(a1, cstr(a2))
			follow = a4&0x100 == 0
			buf = a3
		} else {
			name = p.abs(cstr(a1))
		}
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		c := &call{p: p, text: "stat " + name, disk: true, errs: statErrs, eintr: true}
		return ret(c.run(func(bool) (uintptr, errno) {
			_, _, n, e := f.walk(name, follow, 0)
			if e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
			p.stat(n, buf)
			return 0, 0
		}))

	case syscall.SYS_FACCESSAT, 439:
		name, e := p.at(a1, cstr(a2))
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		c := &call{p: p, text: "access " + name, disk: true, errs: statErrs}
		return ret(c.run(func(bool) (uintptr, errno) {
			_, _, n, e := f.walk(name, true, 0)
			if e == 0 && n == nil {
				e = syscall.ENOENT
			}
			return 0, e
		}))

	case syscall.SYS_MKDIRAT, syscall.SYS_MKDIR:
		name, e := p.abs(cstr2(trap == syscall.SYS_MKDIR, a1)), errno(0)
		if trap == syscall.SYS_MKDIRAT {
			name, e = p.at(a1, cstr(a2))
		}
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		c := &call{p: p, text: "mkdir " + name, disk: true, write: true, errs: dirErrs, eintr: true}
		return ret(c.run(func(bool) (uintptr, errno) {
			d, s, n, e := f.walk(name, false, 0)
			if e != 0 {
				return 0, e
			}
			if n != nil {
				return 0, syscall.EEXIST
			}
			f.link(d, s, f.mk(kDir, 0o755), p.now())
			return 0, 0
		}))

	case syscall.SYS_UNLINKAT, syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		name, e := p.abs(cstr2(trap != syscall.SYS_UNLINKAT, a1)), errno(0)
		rmdir := trap == syscall.SYS_RMDIR
		if trap == syscall.SYS_UNLINKAT {
			name, e = p.at(a1, cstr(a2))
			rmdir = a3&0x200 != 0
		}
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		c := &call{p: p, text: "unlink " + name, disk: true, write: true, errs: dirErrs, eintr: true}
		return ret(c.run(func(bool) (uintptr, errno) {
			d, s, n, e := f.walk(name, false, 0)
			switch {
			case e != 0:
				return 0, e
			case n == nil:
				return 0, syscall.ENOENT
			case d == nil:
				return 0, syscall.EBUSY
			case rmdir && n.kind != kDir:
				return 0, syscall.ENOTDIR
			case rmdir && len(n.ents) > 0:
				return 0, syscall.ENOTEMPTY
			case !rmdir && n.kind == kDir:
				return 0, syscall.EISDIR
			}
			f.unlink(d, s, p.now())
			return 0, 0
		}))

	case syscall.SYS_RENAME, syscall.SYS_RENAMEAT, 316:
		from, e1 := p.abs(cstr2(trap == syscall.SYS_RENAME, a1)), errno(0)
		to, e2 := p.abs(cstr2(trap == syscall.SYS_RENAME, a2)), errno(0)
		if trap != syscall.SYS_RENAME {
			from, e1 = p.at(a1, cstr(a2))
			to, e2 = p.at(a3, cstr(a4))
		}
		if e1 != 0 || e2 != 0 {
			return ret(^uintptr(0), syscall.EBADF)
		}
		c := &call{p: p, text: "rename " + from + " to " + to, disk: true, write: true, errs: dirErrs, eintr: true}
		c.hard = "rename " + from + " to " + to
		return ret(c.run(func(bool) (uintptr, errno) {
			d1, s1, n1, e := f.walk(from, false, 0)
			if e != 0 {
				return 0, e
			}
			if n1 == nil {
				return 0, syscall.ENOENT
			}
			d2, s2, n2, e := f.walk(to, false, 0)
			if e != 0 {
				return 0, e
			}
			if d1 == nil || d2 == nil {
				return 0, syscall.EBUSY
			}
			if n2 == n1 {
				return 0, 0
			}
			if n2 != nil {
				if n2.kind == kDir && n1.kind != kDir {
					return 0, syscall.EISDIR
				}
				if n2.kind != kDir && n1.kind == kDir {
					return 0, syscall.ENOTDIR
				}
				if n2.kind == kDir && len(n2.ents) > 0 {
					return 0, syscall.ENOTEMPTY
				}
				n2.nlink--
			}
			// one step for the directory: the new name appears and the old one goes
			f.link(d2, s2, n1, p.now())
			f.unlink(d1, s1, p.now())
			n1.nlink = max(n1.nlink, 1)
			return 0, 0
		}))

	case syscall.SYS_LINKAT, syscall.SYS_SYMLINKAT:
		var from, to string
		var e errno
		if trap == syscall.SYS_LINKAT {
			from, e = p.at(a1, cstr(a2))
			if e == 0 {
				to, e = p.at(a3, cstr(a4))
			}
		} else {
			from = cstr(a1)
			to, e = p.at(a2, cstr(a3))
		}
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		c := &call{p: p, text: "link " + from + " at " + to, disk: true, write: true, errs: dirErrs, eintr: true}
		return ret(c.run(func(bool) (uintptr, errno) {
			d, s, n, e := f.walk(to, false, 0)
			if e != 0 {
				return 0, e
			}
			if n != nil {
				return 0, syscall.EEXIST
			}
			if trap == syscall.SYS_SYMLINKAT {
				l := f.mk(kLink, 0o777)
				l.target = from
				f.link(d, s, l, p.now())
				return 0, 0
			}
			_, _, x, e := f.walk(from, false, 0)
			if e != 0 {
				return 0, e
			}
			if x == nil {
				return 0, syscall.ENOENT
			}
			x.nlink++
			f.link(d, s, x, p.now())
			return 0, 0
		}))

	case syscall.SYS_READLINKAT:
		name, e := p.at(a1, cstr(a2))
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		c := &call{p: p, text: "readlink " + name, disk: true, errs: statErrs, eintr: true}
		return ret(c.run(func(bool) (uintptr, errno) {
			_, _, n, e := f.walk(name, false, 0)
			if e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
			if n.kind != kLink {
				return 0, syscall.EINVAL
			}
			return uintptr(copy(mem(a3, a4), n.target)), 0
		}))

	case syscall.SYS_GETCWD:
		c := &call{p: p, text: "getcwd", errs: cwdErrs}
		return ret(c.run(func(bool) (uintptr, errno) {
			b := mem(a1, a2)
			if len(b) < len(p.Cwd)+1 {
				return 0, syscall.ERANGE
			}
			n := copy(b, p.Cwd)
			b[n] = 0
			return uintptr(n + 1), 0
		}))

	case syscall.SYS_CHDIR:
		p.Cwd = path.Clean(p.abs(cstr(a1)))
		return ret(0, 0)

	case syscall.SYS_FTRUNCATE:
		o := p.fds[int(a1)]
		if o == nil {
			return ret(^uintptr(0), syscall.EBADF)
		}
		c := &call{p: p, text: fmt.Sprintf("ftruncate %s to %d", o.path, a2), disk: true, write: true, errs: writeErrs[:3], eintr: true, hard: "truncate " + o.path}
		return ret(c.run(func(bool) (uintptr, errno) { f.truncate(o.n, int64(a2), p.now(), o.path); return 0, 0 }))

	case syscall.SYS_TRUNCATE:
		name := p.abs(cstr(a1))
		c := &call{p: p, text: fmt.Sprintf("truncate %s to %d", name, a2), disk: true, write: true, errs: writeErrs[:3], eintr: true, hard: "truncate " + name}
		return ret(c.run(func(bool) (uintptr, errno) {
			_, _, n, e := f.walk(name, true, 0)
			if e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
			f.truncate(n, int64(a2), p.now(), name)
			return 0, 0
		}))

	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		o := p.fds[int(a1)]
		if o == nil {
			return ret(^uintptr(0), syscall.EBADF)
		}
		c := &call{p: p, text: "fsync " + o.path, disk: true, errs: closeErrs, eintr: true}
		if isWrite(o.flags) {
			c.hard = "fsync " + o.path
		}
		return ret(c.run(func(bool) (uintptr, errno) { f.sync(o.n); return 0, 0 }))

	case syscall.SYS_GETDENTS64:
		o := p.fds[int(a1)]
		if o == nil || o.n.kind != kDir {
			return ret(^uintptr(0), syscall.ENOTDIR)
		}
		c := &call{p: p, text: "getdents " + o.path, disk: true, errs: readErrs, eintr: true}
		return ret(c.run(func(bool) (uintptr, errno) {
			if !o.read {
				o.read, o.listed = true, names(o.n)
			}
			b := mem(a2, a3)
			n := 0
			for len(o.listed) > 0 {
				s := o.listed[0]
				l := (19 + len(s) + 1 + 7) &^ 7
				if n+l > len(b) {
					break
				}
				x := o.n.ents[s]
				o.listed = o.listed[1:]
				if x == nil {
					continue
				}
				clear(b[n : n+l])
				binary.LittleEndian.PutUint64(b[n:], x.ino)
				binary.LittleEndian.PutUint64(b[n+8:], uint64(n+l))
				binary.LittleEndian.PutUint16(b[n+16:], uint16(l))
				b[n+18] = map[kind]byte{kFile: 8, kDir: 4, kLink: 10}[x.kind]
				copy(b[n+19:], s)
				n += l
			}
			return uintptr(n), 0
		}))

	case syscall.SYS_FCHMOD:
		if o := p.fds[int(a1)]; o != nil {
			c := &call{p: p, text: "fchmod " + o.path, disk: true, write: true, errs: dirErrs[:2], eintr: true}
			return ret(c.run(func(bool) (uintptr, errno) { o.n.mode = uint32(a2) & 0o7777; return 0, 0 }))
		}
		return ret(^uintptr(0), syscall.EBADF)

	case syscall.SYS_FCHMODAT, syscall.SYS_UTIMENSAT, syscall.SYS_FCHOWNAT:
		name, e := p.at(a1, cstr(a2))
		if e != 0 {
			return ret(^uintptr(0), e)
		}
		c := &call{p: p, text: "set attributes of " + name, disk: true, write: true, errs: dirErrs[:2], eintr: true}
		return ret(c.run(func(bool) (uintptr, errno) {
			_, _, n, e := f.walk(name, true, 0)
			if e != 0 {
				return 0, e
			}
			if n == nil {
				return 0, syscall.ENOENT
			}
			if trap == syscall.SYS_FCHMODAT {
				n.mode = uint32(a3) & 0o7777
			} else if trap == syscall.SYS_UTIMENSAT && a3 != 0 {
				ts := (*[2]syscall.Timespec)(unsafe.Pointer(a3))
				n.mtime = ts[1].Nano()
			}
			return 0, 0
		}))

	case syscall.SYS_FCNTL:
		if a1 >= fdBase || a1 < 3 {
			return ret(0, 0)
		}
		return ret(^uintptr(0), syscall.EBADF)
	case syscall.SYS_FLOCK, syscall.SYS_FADVISE64:
		return ret(0, 0)
	}
	p.Unknown[fmt.Sprintf("syscall %d", trap)]++
	return ret(^uintptr(0), nosys)
}

func cstr2(ok bool, a uintptr) string {
	if !ok {
		return ""
	}
	return cstr(a)
}

func clip(b []byte) string {
	if len(b) > 120 {
		return string(b[:120]) + "..."
	}
	return string(b)
}

func (p *Proc) open(name string, flags int, mode uint32) (uintptr, errno) {
	f := p.FS
	acc := flags & syscall.O_ACCMODE
	d, s, n, e := f.walk(name, flags&syscall.O_NOFOLLOW == 0, 0)
	if e != 0 {
		return 0, e
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 || d == nil {
			return 0, syscall.ENOENT
		}
		n = f.mk(kFile, mode&^0o022&0o7777)
		f.link(d, s, n, p.now())
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if n.kind == kLink {
			return 0, syscall.ELOOP
		}
		if n.kind == kDir && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return 0, syscall.EISDIR
		}
		if n.kind != kDir && flags&syscall.O_DIRECTORY != 0 {
			return 0, syscall.ENOTDIR
		}
		if !p.Root && (acc != syscall.O_RDONLY && n.mode&0o200 == 0 || acc != syscall.O_WRONLY && n.mode&0o400 == 0) {
			return 0, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && n.kind == kFile {
			f.truncate(n, 0, p.now(), name)
		}
	}
	return uintptr(p.newFD(&ofile{n: n, path: name, flags: flags})), 0
}

func (f *FS) link(d *inode, s string, n *inode, now int64) {
	d.ents[s] = n
	d.mtime = now
	if n.mtime == 0 {
		n.mtime = now
	}
	f.log = append(f.log, logOp{what: "link", node: d, name: s, to: n})
}

func (f *FS) unlink(d *inode, s string, now int64) {
	delete(d.ents, s)
	d.mtime = now
	f.log = append(f.log, logOp{what: "unlink", node: d, name: s})
}

func (f *FS) truncate(n *inode, size int64, now int64, name string) {
	n.data = resize(n.data, size)
	n.mtime = now
	f.log = append(f.log, logOp{what: "trunc", node: n, size: size, name: name})
}

// sync makes a node's own operations durable.
func (f *FS) sync(n *inode) {
	var keep []logOp
	var mine []logOp
	for _, o := range f.log {
		if o.node == n {
			mine = append(mine, o)
		} else {
			keep = append(keep, o)
		}
	}
	if len(mine) == 0 {
		return
	}
	if n.durIno == nil {
		// its entry may still be lost, but if it is there the contents are
		c := *n
		c.ents = nil
		if n.kind == kDir {
			c.ents = map[string]*inode{}
		}
		n.durIno = &c
		f.orphans = append(f.orphans, &c)
	}
	n.durIno.data = append([]byte(nil), n.data...)
	for _, o := range mine {
		switch o.what {
		case "link":
			if o.to.durIno == nil {
				c := *o.to
				c.data, c.durIno = nil, nil
				if o.to.kind == kDir {
					c.ents = map[string]*inode{}
				}
				o.to.durIno = &c
			}
			n.durIno.ents[o.name] = o.to.durIno
		case "unlink":
			delete(n.durIno.ents, o.name)
		}
	}
	f.log = keep
}

// NewProc makes a process.
func NewProc(fs *FS, cwd string) *Proc {
	return &Proc{FS: fs, Cwd: cwd, Pid: 4242, Root: true, Injects: map[string]int64{}, Unknown: map[string]int64{}}
}
