// Package kern is the simulated operating system: an in-memory file system,
// per-process descriptors and standard streams, and fault injection. Every
// system call a simulated task makes arrives here (see instr/std.go).
package kern

import (
	"path"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"verif.local/sim/simrt"
)

// FDBase is the first descriptor handed out; real descriptors of the harness
// are all far below it.
const FDBase = 100000

// Node is a file or directory.
type Node struct {
	Ino  uint64
	Dir  bool
	Mode uint32
	Data []byte
	Ents map[string]*Node
	// Pipe: a FIFO, which can be read once. NoSize: a file whose size is
	// reported as 0, like those of /proc.
	Pipe    bool
	NoSize  bool
	Link    bool  // symbolic link; Data is where it leads
	Mtime   int64 // nanoseconds of simulated time
	taken   int   // bytes already read from a pipe
	anon    bool  // a pipe without a name, open for writing writers times
	writers int
	locks   []held

	synced     []byte // content that survives a power loss
	syncedOnce bool
	syncedEnts map[string]*Node
}

// Fault is one injected fault: it fires at the Nth matching call (and, if Perm,
// at every later one).
type Fault struct {
	Call  string `json:"call"`            // open read write close rename mkdir unlink any
	Class string `json:"class,omitempty"` // in out stdout stderr other; empty: any
	Path  string `json:"path,omitempty"`
	Nth   int    `json:"nth"`
	Kind  string `json:"kind"` // EINTR short slow crash-before crash-after crash-mid lossy or an errno
	Arg   int    `json:"arg,omitempty"`
	Perm  bool   `json:"perm,omitempty"`

	seen   int
	Fired  int `json:"-"`
	Failed int `json:"-"` // times the program was given the error
	// What it hit; closing a descriptor that was only read from does not count.
	Paths []string `json:"-"`
	done  bool
}

// Event is one system call as observed.
type Event struct {
	Proc  int
	Call  string
	Class string
	Path  string
	N     int
	Err   error
	Fault *Fault
	Mut   bool // changed the file system
}

// Machine is a simulated computer.
type Machine struct {
	Root    *Node
	Cap     int64 // free bytes; -1 unlimited
	Version int   // bumped by every change of a name or content
	Events  int
	Hash    uint64 // of the event trace
	OnCall  func(p *Proc, ev *Event)
	Now     int64 // time at which the next process starts
	nextIno uint64
	links   int // symbolic links ever made
	hard    int // hard links ever made
	tmp     map[string]bool
}

// Proc is a simulated process.
type Proc struct {
	readOnly bool // the call being made closes a descriptor opened for reading
	ID       int
	M        *Machine
	Group    int32
	Cwd      string
	In       map[string]bool // input paths, for fault classes
	OutDir   string
	Faults   []*Fault
	Stderr   []byte
	Stdout   []byte
	fds      []*openFile
	Exited   bool
	Code     int
	Crashed  bool
	Calls    int
	Counts   map[string]int // fired faults by kind
	// Read coverage of inputs.
	Read map[string]*Coverage
	// LateErr: a write failed part way; the next write to the file fails.
	late   map[*Node]*Fault
	MaxFDs int // limit on open descriptors; 0: none
	FDPeak int
	// StdioClosed: a standard descriptor was closed by the program.
	StdioClosed bool
	stdClosed   [3]bool
	// Signalled: a signal was delivered to the program, which may end.
	Signalled bool
	notified  []notified
	ignored   uint64
	maps      []mapped
}

// Coverage is what a process has read of one input.
type Coverage struct {
	Size   int
	Done   int // contiguous bytes from the start delivered on one descriptor
	Full   bool
	Opened int
	EOF    bool
}

type openFile struct {
	node   *Node
	path   string
	class  string
	flags  int
	off    int64
	cover  int
	dirpos int
	closed bool
	wrote  bool
	refs   int
}

// NewMachine returns a machine with an empty root directory.
func NewMachine() *Machine {
	m := &Machine{Cap: -1, Hash: 14695981039346656037}
	m.Root = m.newNode(true, 0o777)
	m.PutDir("/tmp").Mode = 0o777
	return m
}

func (m *Machine) newNode(dir bool, mode uint32) *Node {
	m.nextIno++
	n := &Node{Ino: m.nextIno, Dir: dir, Mode: mode, Mtime: m.clock()}
	if dir {
		n.Ents = map[string]*Node{}
		n.syncedEnts = map[string]*Node{}
	}
	return n
}

// clock is the time on the machine, as processes see it.
func (m *Machine) clock() int64 {
	if simrt.Group() > 0 {
		return runtime.SimClock()
	}
	return m.Now
}

// Put creates a file (durably) with its parent directories, where there is room.
func (m *Machine) Put(p string, data []byte, mode uint32) {
	if !m.Room(p, false) {
		return
	}
	p = m.Real(p, true)
	d := m.PutDir(path.Dir(p))
	n := m.newNode(false, mode)
	n.Data = append([]byte(nil), data...)
	n.synced, n.syncedOnce = n.Data, true
	d.Ents[path.Base(p)] = n
	d.syncedEnts[path.Base(p)] = n
	m.Version++
}

// PutLink makes (durably) a symbolic link.
func (m *Machine) PutLink(p, to string) {
	if !m.Room(path.Dir(path.Clean("/"+p)), true) {
		return
	}
	p = m.Real(p, false)
	d := m.PutDir(path.Dir(p))
	n := m.newNode(false, 0o777)
	n.Link, n.Data = true, []byte(to)
	n.synced, n.syncedOnce = n.Data, true
	d.Ents[path.Base(p)] = n
	d.syncedEnts[path.Base(p)] = n
	m.links++
	m.Version++
}

// Real follows the symbolic links on the way to an absolute path and, if last,
// at its end. What does not exist stays as it is; what cannot be reached, as the
// parent of something missing or a file taken for a directory, gets a name that
// no file has.
func (m *Machine) Real(p string, last bool) string {
	p = "/" + p
	if m.links == 0 && p == path.Clean(p) {
		return p
	}
	if strings.HasSuffix(p, "/") {
		last = true
		p += "."
	}
	todo, done, n := strings.Split(p, "/"), []string{}, m.Root
	at := func() {
		n = m.Root
		for _, e := range done {
			if n != nil {
				n = n.Ents[e]
			}
		}
	}
	for hops := 0; len(todo) > 0; {
		e := todo[0]
		todo = todo[1:]
		switch {
		case e == "":
			continue
		case e == ".":
			if n != nil && !n.Dir || n == nil && len(todo) > 0 {
				done, n = append(done, nowhere), nil
			}
			continue
		case e == "..":
			if n == nil || !n.Dir {
				done, n = append(done, nowhere), nil
			} else if len(done) > 0 {
				done = done[:len(done)-1]
				at()
			}
			continue
		}
		var c *Node
		if n != nil && n.Dir {
			c = n.Ents[e]
		}
		if c != nil && c.Link && (last || len(todo) > 0) && hops < 40 {
			hops++
			to := string(c.Data)
			if strings.HasPrefix(to, "/") {
				done, n = done[:0], m.Root
			}
			todo = append(strings.Split(to, "/"), todo...)
			continue
		}
		done, n = append(done, e), c
	}
	return "/" + strings.Join(done, "/")
}

const nowhere = "\x00"

// Room reports whether a file or directory can be put at an absolute path: no
// file is in its way.
func (m *Machine) Room(p string, dir bool) bool {
	p = m.Real(p, true)
	n := m.Root
	parts := split(p)
	for i, e := range parts {
		c := n.Ents[e]
		if c == nil {
			return true
		}
		if last := i == len(parts)-1; !c.Dir && (!last || dir) || c.Dir && last && !dir {
			return false
		}
		n = c
	}
	return true
}

// Remove removes a file (durably).
func (m *Machine) Remove(p string) {
	p = m.Real(p, false)
	if d := m.Lookup(path.Dir(p)); d != nil && d.Dir {
		delete(d.Ents, path.Base(p))
		delete(d.syncedEnts, path.Base(p))
		m.Version++
	}
}

// PutDir creates a directory (durably) with its parents.
func (m *Machine) PutDir(p string) *Node {
	n := m.Root
	for _, e := range split(m.Real(p, true)) {
		c := n.Ents[e]
		if c == nil {
			c = m.newNode(true, 0o755)
			n.Ents[e] = c
			n.syncedEnts[e] = c
		}
		n = c
	}
	return n
}

func split(p string) []string {
	var out []string
	for _, e := range strings.Split(path.Clean("/"+p), "/") {
		if e != "" {
			out = append(out, e)
		}
	}
	return out
}

// Lookup finds what an absolute path leads to.
func (m *Machine) Lookup(p string) *Node {
	if n := m.Entry(m.Real(p, true)); n != nil && !n.Link {
		return n
	}
	return nil
}

// Entry finds what is at an absolute path itself.
func (m *Machine) Entry(p string) *Node {
	n := m.Root
	for _, e := range split(p) {
		if !n.Dir {
			return nil
		}
		n = n.Ents[e]
		if n == nil {
			return nil
		}
	}
	return n
}

// Files lists every file (path to content) and directory (content nil, name
// ending in a slash).
func (m *Machine) Files() map[string][]byte {
	out := map[string][]byte{}
	var rec func(p string, n *Node)
	rec = func(p string, n *Node) {
		for k, c := range n.Ents {
			if c.Dir {
				out[p+k+"/"] = nil
				rec(p+k+"/", c)
			} else {
				out[p+k] = c.Data
			}
		}
	}
	rec("/", m.Root)
	return out
}

// Clone copies the machine's file system (no processes, nothing unsynced).
func (m *Machine) Clone() *Machine {
	c := NewMachine()
	c.Cap, c.Now = m.Cap, m.Now
	files := m.Files()
	for _, p := range SortedKeys(files) {
		if strings.HasSuffix(p, "/") {
			c.PutDir(p).Mode = m.Entry(p).Mode
		} else {
			o := m.Entry(p)
			if o.Link {
				continue
			}
			c.Put(p, files[p], o.Mode)
			n := c.Lookup(p)
			n.Mtime, n.Pipe, n.NoSize = o.Mtime, o.Pipe, o.NoSize
		}
	}
	for _, p := range SortedKeys(files) { // now that nothing is put through them
		if o := m.Entry(p); o != nil && o.Link {
			c.PutLink(p, string(o.Data))
		}
	}
	return c
}

// SortedKeys returns the keys of a file listing in order.
func SortedKeys(f map[string][]byte) []string {
	ks := make([]string, 0, len(f))
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// PowerLoss discards, as rnd decides, parts of what was never synced.
func (m *Machine) PowerLoss(rnd func(n int) int) {
	var rec func(n *Node)
	rec = func(n *Node) {
		var names []string
		for k := range n.Ents {
			names = append(names, k)
		}
		for k := range n.syncedEnts {
			if n.Ents[k] == nil {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		for _, k := range names {
			cur, dur := n.Ents[k], n.syncedEnts[k]
			if cur != dur && rnd(3) == 0 { // the directory change was lost
				if dur == nil {
					delete(n.Ents, k)
					continue
				}
				n.Ents[k] = dur
			}
			if cur = n.Ents[k]; cur == nil {
				continue
			}
			n.syncedEnts[k] = cur
			if cur.Dir {
				rec(cur)
				continue
			}
			if cur.syncedOnce && string(cur.Data) == string(cur.synced) {
				continue
			}
			switch rnd(6) {
			case 0, 1: // all of it made it
			case 2: // none of it
				cur.Data = append([]byte(nil), cur.synced...)
			case 3: // a prefix
				cur.Data = append([]byte(nil), cur.Data[:rnd(len(cur.Data)+1)]...)
			case 4: // length without data
				d := make([]byte, len(cur.Data))
				k := rnd(len(d) + 1)
				copy(d, cur.Data[:k])
				cur.Data = d
			case 5: // old content beyond a new prefix
				d := append([]byte(nil), cur.Data[:rnd(len(cur.Data)+1)]...)
				if len(d) < len(cur.synced) {
					d = append(d, cur.synced[len(d):]...)
				}
				cur.Data = d
			}
			cur.synced, cur.syncedOnce = append([]byte(nil), cur.Data...), true
		}
		for k := range n.syncedEnts {
			if n.Ents[k] == nil {
				delete(n.syncedEnts, k)
			}
		}
	}
	rec(m.Root)
	m.Version++
}

// Settle makes everything durable.
func (m *Machine) Settle() {
	var rec func(n *Node)
	rec = func(n *Node) {
		if !n.Dir {
			n.synced, n.syncedOnce = append([]byte(nil), n.Data...), true
			return
		}
		n.syncedEnts = map[string]*Node{}
		for k, c := range n.Ents {
			n.syncedEnts[k] = c
			rec(c)
		}
	}
	rec(m.Root)
}

// NewProc returns a process with open standard streams.
func (m *Machine) NewProc(id int, group int32, cwd string) *Proc {
	return &Proc{ID: id, M: m, Group: group, Cwd: cwd, In: map[string]bool{}, Counts: map[string]int{}, Read: map[string]*Coverage{}, late: map[*Node]*Fault{}}
}

// Abs resolves a path of the process.
func (p *Proc) Abs(name string) string { return p.abs(name, true) }

// abs follows a symbolic link at the end of the path if last.
func (p *Proc) abs(name string, last bool) string {
	if !strings.HasPrefix(name, "/") {
		name = p.Cwd + "/" + name
	}
	return p.M.Real(name, last)
}

func (p *Proc) classOf(abs string) string {
	switch {
	case p.In[abs]:
		return "in"
	case p.OutDir != "" && strings.HasPrefix(abs, strings.TrimSuffix(p.OutDir, "/")+"/"):
		return "out"
	}
	return "other"
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENFILE": syscall.ENFILE, "ENOENT": syscall.ENOENT, "EDQUOT": syscall.EDQUOT, "EROFS": syscall.EROFS,
	"ESTALE": syscall.ESTALE, "EISDIR": syscall.EISDIR, "EPERM": syscall.EPERM, "ENOMEM": syscall.ENOMEM,
	"EFBIG": syscall.EFBIG, "EBADF": syscall.EBADF, "EINVAL": syscall.EINVAL, "ENXIO": syscall.ENXIO,
	"ETIMEDOUT": syscall.ETIMEDOUT, "ELOOP": syscall.ELOOP, "EAGAIN": syscall.EAGAIN, "EBUSY": syscall.EBUSY,
	"ETXTBSY": syscall.ETXTBSY, "ENODEV": syscall.ENODEV, "EOVERFLOW": syscall.EOVERFLOW, "EBADMSG": syscall.EBADMSG,
	"ECONNRESET": syscall.ECONNRESET, "ENOTCONN": syscall.ENOTCONN, "EREMOTEIO": syscall.EREMOTEIO, "EFAULT": syscall.EFAULT,
	"ENOTSUP": syscall.ENOTSUP, "ENAMETOOLONG": syscall.ENAMETOOLONG, "EPIPE": syscall.EPIPE, "ENOLCK": syscall.ENOLCK,
	"ESHUTDOWN": syscall.ESHUTDOWN, "EDEADLK": syscall.EDEADLK, "ENOTDIR": syscall.ENOTDIR,
}

// Errno returns the error a fault kind stands for, or 0.
func Errno(kind string) syscall.Errno { return errnos[kind] }

// call runs one system call: scheduling point, fault selection, the operation
// itself, crash, accounting.
func (p *Proc) call(name, class, abs string, op func(f *Fault) (int, error)) (int, error) {
	simrt.Point()
	if p.Exited || p.Crashed || simrt.Dying() {
		return -1, syscall.EIO
	}
	p.Calls++
	p.M.Events++
	simrt.Elapse(1000)
	var hit *Fault
	for _, f := range p.Faults {
		if f.done || f.Call != "any" && f.Call != name || f.Class != "" && f.Class != class || f.Path != "" && f.Path != abs {
			continue
		}
		f.seen++
		if f.seen < f.Nth {
			continue
		}
		if hit == nil {
			hit = f
		} else {
			f.seen-- // one fault at a time
		}
	}
	if hit != nil {
		hit.Fired++
		p.Counts[name+":"+hit.Kind]++
		burst := 1
		if hit.Kind == "EINTR" && hit.Arg > 0 {
			burst = hit.Arg
		}
		if !hit.Perm && hit.Fired >= burst {
			hit.done = true
		}
		if hit.Kind == "crash-before" {
			p.crash()
		}
		if s := signals[hit.Kind]; s != 0 && p.raise(s) {
			hit.Failed++
		}
		if hit.Kind == "slow" {
			hit.done = hit.done || hit.Fired >= 400
			simrt.Elapse(int64(hit.Arg) * 1_000_000)
		}
	}
	v := p.M.Version
	var n int
	var err error
	switch {
	case hit != nil && hit.Kind == "EINTR":
		n, err = -1, syscall.EINTR
	case hit != nil && Errno(hit.Kind) != 0 && !(name == "write" && hit.Arg > 0) && name != "close":
		n, err = -1, Errno(hit.Kind)
	default:
		n, err = op(hit)
	}
	if hit != nil && err != nil {
		hit.Failed++
		if len(hit.Paths) < 64 && !p.readOnly {
			hit.Paths = append(hit.Paths, abs)
		}
	}
	p.readOnly = false
	ev := &Event{Proc: p.ID, Call: name, Class: class, Path: abs, N: n, Err: err, Fault: hit, Mut: p.M.Version != v}
	p.M.note(ev)
	if p.M.OnCall != nil {
		p.M.OnCall(p, ev)
	}
	if hit != nil && (hit.Kind == "crash-after" || hit.Kind == "crash-mid") {
		p.crash()
	}
	return n, err
}

func (m *Machine) note(ev *Event) {
	h := m.Hash
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 255) * 1099511628211
	}
	add(ev.Call)
	add(ev.Class)
	add(ev.Path)
	h = (h ^ uint64(ev.N+7)) * 1099511628211
	h = (h ^ uint64(ev.Proc+1)) * 1099511628211
	if ev.Err != nil {
		add(ev.Err.Error())
	}
	m.Hash = h
}

// signals are fault kinds: they come before the call is made.
var signals = map[string]int{"SIGINT": 2, "SIGTERM": 15, "SIGHUP": 1}

// notified is a wish to be told of signals.
type notified struct {
	key     any
	deliver func(sig int)
	mask    uint64
}

// raise delivers a signal; unless the program handles or ignores it, it ends.
// It reports whether the program was told.
func (p *Proc) raise(sig int) bool {
	bit := uint64(1) << uint(sig)
	told := false
	for _, h := range p.notified {
		if h.mask&bit != 0 && sig != 9 && sig != 19 {
			h.deliver(sig)
			told = true
		}
	}
	switch {
	case told:
		p.Signalled = true
	case p.ignored&bit != 0 && sig != 9 || sig == 17 || sig == 18 || sig == 23 || sig == 28:
	default:
		p.crash()
	}
	return told
}

// Notify changes what becomes of signals: 0 they are delivered, 1 no longer
// to this receiver, 2 they are ignored, 3 they are handled as at the start.
func (p *Proc) Notify(op int, key any, deliver func(sig int), sigs []int) {
	var mask uint64
	for _, s := range sigs {
		if s > 0 && s < 64 {
			mask |= 1 << uint(s)
		}
	}
	var keep []notified
	known := false
	for _, h := range p.notified {
		switch op {
		case 0:
			if h.key == key {
				h.mask |= mask
				known = true
			}
		case 1:
			if h.key == key {
				h.mask = 0
			}
		default:
			h.mask &^= mask
		}
		if h.mask != 0 {
			keep = append(keep, h)
		}
	}
	if op == 0 && !known {
		keep = append(keep, notified{key, deliver, mask})
	}
	p.notified = keep
	switch op {
	case 0, 3:
		p.ignored &^= mask
	case 2:
		p.ignored |= mask
	}
}

func (p *Proc) Ignored(sig int) bool { return sig > 0 && sig < 64 && p.ignored>>uint(sig)&1 != 0 }

// Kill sends a signal to a process of this machine.
func (p *Proc) Kill(pid, sig int) error {
	var to *Proc
	for i := range Table {
		if q := Table[i]; i > 0 && q != nil && PidBase+q.ID == pid && q.M == p.M && !q.Exited && !q.Crashed {
			to = q
		}
	}
	err := p.meta("kill", "", func() error {
		switch {
		case pid == 1:
			return syscall.EPERM
		case to == nil:
			return syscall.ESRCH
		case sig != 0 && to != p:
			return syscall.EPERM
		}
		return nil
	})
	if err == nil && sig != 0 {
		p.raise(sig)
	}
	return err
}

func (p *Proc) crash() {
	p.Crashed = true
	p.end()
}

func (p *Proc) end() {
	p.flushMaps()
	simrt.Kill(p.Group)
	simrt.Die()
}

func (p *Proc) file(fd int) *openFile {
	i := fd - FDBase
	if i < 0 || i >= len(p.fds) || p.fds[i] == nil {
		return nil
	}
	return p.fds[i]
}

func (p *Proc) install(f *openFile) int {
	f.refs++
	defer func() {
		if n := p.OpenFDs(); n > p.FDPeak {
			p.FDPeak = n
		}
	}()
	for i, o := range p.fds {
		if o == nil {
			p.fds[i] = f
			return FDBase + i
		}
	}
	p.fds = append(p.fds, f)
	return FDBase + len(p.fds) - 1
}

// OpenFDs counts descriptors still open.
func (p *Proc) OpenFDs() int {
	n := 0
	for _, f := range p.fds {
		if f != nil {
			n++
		}
	}
	return n
}

// CloseAll closes every descriptor.
func (p *Proc) CloseAll() {
	for i := range p.fds {
		p.fds[i] = nil
	}
}

// OpenPath reports whether the process has a file open that it found under a
// name.
func (p *Proc) OpenPath(abs string) bool {
	for _, f := range p.fds {
		if f != nil && f.path == abs {
			return true
		}
	}
	return false
}

func (m *Machine) parent(abs string) (*Node, string, error) {
	d := m.Root
	parts := split(abs)
	if len(parts) == 0 {
		return nil, "", syscall.EEXIST
	}
	for _, e := range parts[:len(parts)-1] {
		d = d.Ents[e]
		if d == nil {
			return nil, "", syscall.ENOENT
		}
		if !d.Dir {
			return nil, "", syscall.ENOTDIR
		}
	}
	return d, parts[len(parts)-1], nil
}

func (p *Proc) open(name, abs string, flags int, mode uint32) (int, error) {
	m := p.M
	if p.MaxFDs > 0 && p.OpenFDs() >= p.MaxFDs {
		p.Counts["open:too-many"]++
		return -1, syscall.EMFILE
	}
	n := m.Entry(abs)
	acc := flags & syscall.O_ACCMODE
	if name == "" {
		return -1, syscall.ENOENT
	}
	if n != nil && n.Link && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL {
		return -1, syscall.ELOOP
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			if d, _, err := m.parent(abs); err != nil || d == nil {
				if err == syscall.ENOTDIR {
					return -1, err
				}
			}
			return -1, syscall.ENOENT
		}
		d, base, err := m.parent(abs)
		if err != nil {
			return -1, err
		}
		if d.Mode&0o200 == 0 {
			return -1, syscall.EACCES
		}
		n = m.newNode(false, mode&0o777&^0o22)
		d.Ents[base] = n
		d.Mtime = m.clock()
		m.Version++
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST
		}
		if n.Dir && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return -1, syscall.EISDIR
		}
		if flags&syscall.O_DIRECTORY != 0 && !n.Dir {
			return -1, syscall.ENOTDIR
		}
		if acc != syscall.O_WRONLY && n.Mode&0o400 == 0 || acc != syscall.O_RDONLY && n.Mode&0o200 == 0 {
			return -1, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && !n.Dir {
			n.Mtime = m.clock()
			if len(n.Data) > 0 {
				m.grow(n, 0)
				m.Version++
			}
		}
	}
	f := &openFile{node: n, path: abs, class: p.classOf(abs), flags: flags}
	if f.class == "out" && acc == syscall.O_RDONLY {
		f.class = "other" // nothing is written
	}
	if c := p.In[abs]; c && acc == syscall.O_RDONLY {
		cv := p.cover(abs)
		cv.Opened++
		cv.Size = len(n.Data)
		if len(n.Data) == 0 {
			cv.Full = true
		}
	}
	return p.install(f), nil
}

func (p *Proc) cover(abs string) *Coverage {
	cv := p.Read[abs]
	if cv == nil {
		cv = &Coverage{Size: -1}
		p.Read[abs] = cv
	}
	return cv
}

func (m *Machine) used() int64 {
	var t int64
	var rec func(n *Node)
	rec = func(n *Node) {
		t += int64(len(n.Data))
		for _, c := range n.Ents {
			rec(c)
		}
	}
	rec(m.Root)
	return t
}

// grow resizes a file within the free space.
func (m *Machine) grow(n *Node, size int64) error {
	d := int64(len(n.Data))
	if m.Cap >= 0 && size > d && size-d > m.Cap {
		return syscall.ENOSPC
	}
	if m.Cap >= 0 {
		m.Cap -= size - d
	}
	// What others have seen of the content stays as it is: bytes are only
	// ever added in place behind it.
	if size >= d {
		n.Data = append(n.Data, make([]byte, size-d)...)
	} else {
		n.Data = append([]byte(nil), n.Data[:size]...)
	}
	n.Mtime = m.clock()
	return nil
}

// Open etc. implement syscall.SimKernel through the dispatcher below.

func (p *Proc) Open(name string, flags int, mode uint32) (int, error) {
	excl := flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0
	abs := p.abs(name, flags&syscall.O_NOFOLLOW == 0 && !excl)
	return p.call("open", p.classOf(abs), abs, func(*Fault) (int, error) { return p.open(name, abs, flags, mode) })
}

func (p *Proc) Read_(fd int, b []byte, off int64) (int, error) {
	if fd == 0 {
		return p.call("read", "stdin", "", func(*Fault) (int, error) { return 0, nil })
	}
	f := p.file(fd)
	if f == nil {
		return p.call("read", "other", "", func(*Fault) (int, error) { return -1, syscall.EBADF })
	}
	for {
		n, err := p.read(f, b, off)
		if err != syscall.EAGAIN || f.flags&syscall.O_NONBLOCK != 0 {
			return n, err
		}
		simrt.Elapse(1000)
		simrt.GiveWay()
	}
}

func (p *Proc) read(f *openFile, b []byte, off int64) (int, error) {
	return p.call("read", f.class, f.path, func(h *Fault) (int, error) {
		if f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return -1, syscall.EBADF
		}
		if f.node.Dir {
			return -1, syscall.EISDIR
		}
		at := off
		if at < 0 {
			at = f.off
		}
		if f.node.Pipe {
			if off >= 0 {
				return -1, syscall.ESPIPE
			}
			at = int64(f.node.taken)
			if f.node.anon && f.node.writers > 0 && at >= int64(len(f.node.Data)) && len(b) > 0 {
				return -1, syscall.EAGAIN
			}
		}
		n := 0
		if at < int64(len(f.node.Data)) {
			n = copy(b, f.node.Data[at:])
		}
		if h != nil && h.Kind == "short" && n > 1 {
			k := h.Arg
			if k < 1 {
				k = 1
			}
			if k < n {
				n = k
			}
		}
		if f.node.Pipe {
			f.node.taken += n
		} else if off < 0 {
			f.off += int64(n)
		}
		if p.In[f.path] {
			cv := p.cover(f.path)
			if at <= int64(f.cover) && int(at)+n > f.cover {
				f.cover = int(at) + n
			}
			if f.cover > cv.Done {
				cv.Done = f.cover
			}
			if f.cover >= len(f.node.Data) {
				cv.Full = true
			}
			if n == 0 && len(b) > 0 {
				cv.EOF = true
			}
		}
		return n, nil
	})
}

func (p *Proc) Write_(fd int, b []byte, off int64) (int, error) {
	if fd == 1 || fd == 2 {
		class, dst := "stdout", &p.Stdout
		if fd == 2 {
			class, dst = "stderr", &p.Stderr
		}
		return p.call("write", class, "", func(h *Fault) (int, error) {
			if p.stdClosed[fd] {
				return -1, syscall.EBADF
			}
			if e, ok := p.late[stdNodes[fd]]; ok {
				delete(p.late, stdNodes[fd])
				e.Failed++
				return -1, Errno(e.Kind)
			}
			n := len(b)
			if h != nil && (h.Kind == "short" || h.Kind == "crash-mid" || Errno(h.Kind) != 0) {
				if h.Arg < n {
					n = h.Arg
				}
				if n < 1 && h.Kind == "short" && len(b) > 0 {
					n = 1
				}
			}
			*dst = append(*dst, b[:n]...)
			if h != nil && Errno(h.Kind) != 0 {
				if n == 0 {
					return -1, Errno(h.Kind)
				}
				if n < len(b) {
					p.late[stdNodes[fd]] = h
				}
				return n, nil
			}
			return n, nil
		})
	}
	f := p.file(fd)
	if f == nil {
		return p.call("write", "other", "", func(*Fault) (int, error) { return -1, syscall.EBADF })
	}
	return p.call("write", f.class, f.path, func(h *Fault) (int, error) {
		if f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return -1, syscall.EBADF
		}
		if e, ok := p.late[f.node]; ok {
			delete(p.late, f.node)
			e.Failed++
			return -1, Errno(e.Kind)
		}
		n := len(b)
		if h != nil && (h.Kind == "short" || h.Kind == "crash-mid" || Errno(h.Kind) != 0) {
			if h.Arg < n {
				n = h.Arg
			}
			if n < 1 && h.Kind == "short" && len(b) > 0 {
				n = 1
			}
		}
		at := off
		if at < 0 {
			at = f.off
			if f.flags&syscall.O_APPEND != 0 || f.node.anon {
				at = int64(len(f.node.Data))
			}
		}
		end, was := at+int64(n), int64(len(f.node.Data))
		if end > was {
			if p.M.Cap >= 0 && end-int64(len(f.node.Data)) > p.M.Cap {
				end = int64(len(f.node.Data)) + p.M.Cap
				if end <= at {
					p.Counts["write:disk-full"]++
					return -1, syscall.ENOSPC
				}
				n = int(end - at)
				p.Counts["write:disk-full"]++
			}
			if err := p.M.grow(f.node, end); err != nil {
				return -1, err
			}
		}
		if n > 0 && !f.node.anon {
			if at < was {
				f.node.Data = append([]byte(nil), f.node.Data...)
			}
			copy(f.node.Data[at:], b[:n])
			f.node.Mtime = p.M.clock()
			f.wrote = true
			p.M.Version++
		} else if n > 0 {
			copy(f.node.Data[at:], b[:n])
		}
		if off < 0 {
			f.off = at + int64(n)
		}
		if h != nil && Errno(h.Kind) != 0 && n < len(b) {
			p.late[f.node] = h
		}
		return n, nil
	})
}

var stdNodes = [3]*Node{{}, {}, {}}

func (p *Proc) Close_(fd int) error {
	if fd >= 0 && fd <= 2 {
		p.StdioClosed = true
		_, err := p.call("close", "std", "", func(*Fault) (int, error) { p.stdClosed[fd] = true; return 0, nil })
		return err
	}
	f := p.file(fd)
	if f == nil {
		_, err := p.call("close", "other", "", func(*Fault) (int, error) { return -1, syscall.EBADF })
		return err
	}
	_, err := p.call("close", f.class, f.path, func(h *Fault) (int, error) {
		p.readOnly = f.flags&syscall.O_ACCMODE == syscall.O_RDONLY
		p.fds[fd-FDBase] = nil
		f.refs--
		if f.refs == 0 && f.node.anon && f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			f.node.writers = 0
		}
		f.node.lock(held{proc: p}, 0, true)
		if h != nil && h.Kind == "lossy" {
			// Delayed write-back failed: the tail of the file is gone.
			k := len(f.node.Data) - 1 - h.Arg
			if k < 0 {
				k = 0
			}
			if f.wrote && k < len(f.node.Data) {
				p.M.grow(f.node, int64(k))
				p.M.Version++
			}
			return -1, syscall.EIO
		}
		if h != nil && Errno(h.Kind) != 0 {
			return -1, Errno(h.Kind)
		}
		return 0, nil
	})
	return err
}

func (p *Proc) meta(name, abs string, op func() error) error {
	_, err := p.call(name, p.classOf(abs), abs, func(*Fault) (int, error) {
		if err := op(); err != nil {
			return -1, err
		}
		return 0, nil
	})
	return err
}

func (p *Proc) Unlink(name string, flags int) error {
	abs := p.abs(name, false)
	return p.meta("unlink", abs, func() error {
		d, base, err := p.M.parent(abs)
		if err != nil {
			return err
		}
		n := d.Ents[base]
		if n == nil {
			return syscall.ENOENT
		}
		const atRemovedir = 0x200
		if n.Dir != (flags&atRemovedir != 0) {
			if n.Dir {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		if n.Dir && len(n.Ents) > 0 {
			return syscall.ENOTEMPTY
		}
		if d.Mode&0o200 == 0 {
			return syscall.EACCES
		}
		p.M.release(n)
		delete(d.Ents, base)
		d.Mtime = p.M.clock()
		p.M.Version++
		return nil
	})
}

// names counts the names of a node.
func (m *Machine) names(n *Node) int {
	if m.hard == 0 || n.Dir {
		return 1
	}
	k := 0
	var rec func(d *Node)
	rec = func(d *Node) {
		for _, c := range d.Ents {
			if c == n {
				k++
			} else if c.Dir {
				rec(c)
			}
		}
	}
	rec(m.Root)
	return k
}

// release gives back the space of a node that loses a name.
func (m *Machine) release(n *Node) {
	if m.Cap >= 0 && m.names(n) <= 1 {
		m.Cap += int64(len(n.Data))
	}
}

func (p *Proc) Rename(o, n string) error {
	ao, an := p.abs(o, false), p.abs(n, false)
	return p.meta("rename", an, func() error {
		do, bo, err := p.M.parent(ao)
		if err != nil {
			return err
		}
		dn, bn, err := p.M.parent(an)
		if err != nil {
			return err
		}
		src := do.Ents[bo]
		if src == nil {
			return syscall.ENOENT
		}
		if dst := dn.Ents[bn]; dst != nil {
			if dst == src {
				return nil
			}
			if do.Mode&dn.Mode&0o200 == 0 {
				return syscall.EACCES
			}
			if dst.Dir && !src.Dir {
				return syscall.EISDIR
			}
			if !dst.Dir && src.Dir {
				return syscall.ENOTDIR
			}
			if dst.Dir && len(dst.Ents) > 0 {
				return syscall.ENOTEMPTY
			}
			p.M.release(dst)
		}
		if do.Mode&dn.Mode&0o200 == 0 {
			return syscall.EACCES
		}
		if src.Dir && (dn == src || strings.HasPrefix(an+"/", ao+"/")) {
			return syscall.EINVAL
		}
		dn.Ents[bn] = src
		do.Mtime, dn.Mtime = p.M.clock(), p.M.clock()
		delete(do.Ents, bo)
		p.M.Version++
		return nil
	})
}

func (p *Proc) Link(o, n string) error {
	ao, an := p.abs(o, false), p.abs(n, false)
	return p.meta("link", an, func() error {
		src := p.M.Entry(ao)
		if src == nil {
			return syscall.ENOENT
		}
		if src.Dir {
			return syscall.EPERM
		}
		d, b, err := p.M.parent(an)
		if err != nil {
			return err
		}
		if d.Ents[b] != nil {
			return syscall.EEXIST
		}
		if d.Mode&0o200 == 0 {
			return syscall.EACCES
		}
		d.Ents[b] = src
		d.Mtime = p.M.clock()
		p.M.hard++
		p.M.Version++
		return nil
	})
}

func (p *Proc) Mkdir(name string, mode uint32) error {
	abs := p.abs(name, false)
	return p.meta("mkdir", abs, func() error {
		d, b, err := p.M.parent(abs)
		if err != nil {
			return err
		}
		if d.Ents[b] != nil {
			return syscall.EEXIST
		}
		if d.Mode&0o200 == 0 {
			return syscall.EACCES
		}
		d.Ents[b] = p.M.newNode(true, mode&0o777&^0o22)
		d.Mtime = p.M.clock()
		p.M.Version++
		return nil
	})
}

func (p *Proc) truncate(n *Node, size int64) error {
	if n == nil {
		return syscall.ENOENT
	}
	if n.Dir {
		return syscall.EISDIR
	}
	if size == int64(len(n.Data)) {
		return nil
	}
	if err := p.M.grow(n, size); err != nil {
		return err
	}
	p.M.Version++
	return nil
}

func (p *Proc) Truncate(name string, n int64) error {
	abs := p.Abs(name)
	return p.meta("truncate", abs, func() error { return p.truncate(p.M.Lookup(abs), n) })
}

func (p *Proc) Ftruncate(fd int, n int64) error {
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	return p.meta("truncate", f.path, func() error { return p.truncate(f.node, n) })
}

const nofollow = 0x100

func (p *Proc) Chmod(name string, mode uint32, flags int) error {
	abs := p.abs(name, flags&nofollow == 0)
	return p.meta("chmod", abs, func() error {
		n := p.M.Entry(abs)
		if n == nil {
			return syscall.ENOENT
		}
		if n.Link {
			return syscall.EOPNOTSUPP
		}
		p.M.chmod(n, mode)
		return nil
	})
}

func (m *Machine) chmod(n *Node, mode uint32) {
	if n.Mode != mode&0o777 {
		n.Mode = mode & 0o777
		m.Version++
	}
}

func (p *Proc) Fchmod(fd int, mode uint32) error {
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	return p.meta("chmod", f.path, func() error { p.M.chmod(f.node, mode); return nil })
}

// Chown succeeds and changes nothing: the machine has one user.
func (p *Proc) Chown(name string, flags int) error {
	abs := p.abs(name, flags&nofollow == 0)
	return p.meta("chown", abs, func() error {
		if p.M.Entry(abs) == nil {
			return syscall.ENOENT
		}
		return nil
	})
}

func (p *Proc) Fchown(fd int) error {
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	return p.meta("chown", f.path, func() error { return nil })
}

// Utimes sets the time of the last change.
func (p *Proc) Utimes(name string, ns [2]int64, flags int) error {
	abs := p.abs(name, flags&nofollow == 0)
	return p.meta("utimes", abs, func() error {
		n := p.M.Entry(abs)
		if n == nil {
			return syscall.ENOENT
		}
		switch ns[1] {
		case syscall.SimNow:
			n.Mtime = p.M.clock()
		case syscall.SimOmit:
		default:
			n.Mtime = ns[1] - 1_000_000_000_000_000_000
		}
		return nil
	})
}

func (p *Proc) Statfs(name string, fd int, st *syscall.Statfs_t) error {
	abs := ""
	if fd < 0 {
		abs = p.Abs(name)
	} else if f := p.file(fd); f != nil {
		abs = f.path
	} else {
		return syscall.EBADF
	}
	return p.meta("statfs", abs, func() error {
		if fd < 0 && p.M.Lookup(abs) == nil {
			return syscall.ENOENT
		}
		*st = syscall.Statfs_t{Type: 0xef53, Bsize: 1, Frsize: 1, Namelen: 255, Blocks: 1 << 40, Files: 1 << 30, Ffree: 1 << 29}
		st.Bfree = 1 << 39
		if p.M.Cap >= 0 {
			st.Bfree = uint64(p.M.Cap)
		}
		st.Bavail = st.Bfree
		return nil
	})
}

// At resolves a path relative to an open directory.
func (p *Proc) At(dirfd int, name string) string {
	f := p.file(dirfd)
	switch {
	case f == nil:
		return "/nowhere/" + name
	case name == "":
		return f.path
	case !f.node.Dir:
		return f.path + "/" + name // ENOTDIR
	}
	return strings.TrimSuffix(f.path, "/") + "/" + name
}

func (p *Proc) Fchdir(fd int) error {
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	return p.Chdir(f.path)
}

// Pipe makes a pipe.
func (p *Proc) Pipe() (r, w int, err error) {
	_, err = p.call("pipe", "other", "", func(*Fault) (int, error) {
		if p.MaxFDs > 0 && p.OpenFDs()+2 > p.MaxFDs {
			return -1, syscall.EMFILE
		}
		n := p.M.newNode(false, 0o600)
		n.Pipe, n.anon, n.writers = true, true, 1
		r = p.install(&openFile{node: n, class: "other", flags: syscall.O_RDONLY})
		w = p.install(&openFile{node: n, class: "other", flags: syscall.O_WRONLY})
		return 0, nil
	})
	return r, w, err
}

func (p *Proc) Sync() {
	p.meta("fsync", "", func() error { p.M.Settle(); return nil })
}

func (p *Proc) Sleep(ns int64) error {
	simrt.Elapse(ns)
	simrt.GiveWay()
	return nil
}

// mapped is a mapping of a file: a copy, written back when it is given up.
type mapped struct {
	mem   []byte
	was   string
	node  *Node
	off   int64
	write bool
}

func (p *Proc) Mmap(length, prot, flags, fd int, off int64) (uintptr, error) {
	const anonymous, shared, write = 0x20, 1, 2
	var f *openFile
	if flags&anonymous == 0 {
		if f = p.file(fd); f == nil {
			return 0, syscall.EBADF
		}
	}
	if length <= 0 || length > 1<<28 || off < 0 {
		return 0, syscall.EINVAL
	}
	mem := make([]byte, (length+4095)&^4095)
	x := mapped{mem: mem, off: off}
	abs, class := "", "other"
	if f != nil {
		abs, class = f.path, f.class
	}
	_, err := p.call("mmap", class, abs, func(*Fault) (int, error) {
		if f == nil {
			return 0, nil
		}
		acc := f.flags & syscall.O_ACCMODE
		if f.node.Pipe || f.node.Dir {
			return -1, syscall.ENODEV
		}
		x.write = flags&3 == shared && prot&write != 0
		if acc == syscall.O_WRONLY || x.write && acc != syscall.O_RDWR {
			return -1, syscall.EACCES
		}
		x.node = f.node
		if off < int64(len(f.node.Data)) {
			copy(mem, f.node.Data[off:])
		}
		x.was = string(mem)
		if p.In[f.path] && off <= int64(f.cover) {
			cv := p.cover(f.path)
			f.cover = max(f.cover, min(int(off)+length, len(f.node.Data)))
			cv.Done = max(cv.Done, f.cover)
			cv.Full = cv.Full || f.cover >= len(f.node.Data)
		}
		return 0, nil
	})
	if err != nil {
		return 0, err
	}
	p.maps = append(p.maps, x)
	return uintptr(unsafe.Pointer(&mem[0])), nil
}

func (p *Proc) Munmap(addr uintptr) error {
	for i, x := range p.maps {
		if uintptr(unsafe.Pointer(&x.mem[0])) == addr {
			_, err := p.call("munmap", "other", "", func(*Fault) (int, error) {
				p.writeBack(x)
				return 0, nil
			})
			p.maps = append(p.maps[:i:i], p.maps[i+1:]...)
			return err
		}
	}
	return syscall.EINVAL
}

// writeBack puts what was changed in a mapping into the file, within its size.
func (p *Proc) writeBack(x mapped) {
	if !x.write || string(x.mem) == x.was || x.off >= int64(len(x.node.Data)) {
		return
	}
	d := append([]byte(nil), x.node.Data...)
	copy(d[x.off:], x.mem)
	x.node.Data = d
	x.node.Mtime = p.M.clock()
	p.M.Version++
}

func (p *Proc) flushMaps() {
	for _, x := range p.maps {
		p.writeBack(x)
	}
	p.maps = nil
	for _, f := range p.fds {
		if f != nil && f.node.anon && f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			f.node.writers = 0
		}
	}
}

func (p *Proc) Access(name string, mode uint32) error {
	abs := p.Abs(name)
	return p.meta("access", abs, func() error {
		n := p.M.Lookup(abs)
		if n == nil {
			return syscall.ENOENT
		}
		if mode&4 != 0 && n.Mode&0o400 == 0 || mode&2 != 0 && n.Mode&0o200 == 0 {
			return syscall.EACCES
		}
		return nil
	})
}

func (p *Proc) Symlink(to, name string) error {
	abs := p.abs(name, false)
	return p.meta("symlink", abs, func() error {
		d, b, err := p.M.parent(abs)
		if err != nil {
			return err
		}
		if d.Ents[b] != nil {
			return syscall.EEXIST
		}
		if d.Mode&0o200 == 0 {
			return syscall.EACCES
		}
		n := p.M.newNode(false, 0o777)
		n.Link, n.Data = true, []byte(to)
		d.Ents[b] = n
		p.M.links++
		p.M.Version++
		return nil
	})
}

func (p *Proc) Readlink(name string, buf []byte) (int, error) {
	abs, k := p.abs(name, false), 0
	err := p.meta("readlink", abs, func() error {
		n := p.M.Entry(abs)
		if n == nil {
			return syscall.ENOENT
		}
		if !n.Link {
			return syscall.EINVAL
		}
		k = copy(buf, n.Data)
		return nil
	})
	if err != nil {
		return -1, err
	}
	return k, nil
}

func (p *Proc) Getcwd(buf []byte) (int, error) {
	if len(buf) < len(p.Cwd)+1 {
		return -1, syscall.ERANGE
	}
	n := copy(buf, p.Cwd)
	buf[n] = 0
	return n + 1, nil
}

func (p *Proc) Chdir(name string) error {
	abs := p.Abs(name)
	return p.meta("chdir", abs, func() error {
		n := p.M.Lookup(abs)
		if n == nil {
			return syscall.ENOENT
		}
		if !n.Dir {
			return syscall.ENOTDIR
		}
		p.Cwd = abs
		return nil
	})
}

func (p *Proc) Dup(fd int) (int, error) {
	f := p.file(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	return p.install(f), nil
}

// Dup3 does not redirect the standard streams.
func (p *Proc) Dup3(o, n int) error {
	f := p.file(o)
	if f == nil && o > 2 {
		return syscall.EBADF
	}
	if n < FDBase || f == nil {
		Unsupported = "dup2 of a standard stream"
		return syscall.EINVAL
	}
	if f == p.file(n) {
		return nil
	}
	if p.file(n) != nil {
		p.Close_(n)
	}
	for len(p.fds) <= n-FDBase && n-FDBase < 4096 {
		p.fds = append(p.fds, nil)
	}
	if n-FDBase >= len(p.fds) {
		return syscall.EBADF
	}
	p.fds[n-FDBase] = f
	f.refs++
	return nil
}

func (p *Proc) Fcntl(fd, cmd, arg int) (int, error) {
	switch cmd {
	case syscall.F_GETFL:
		if f := p.file(fd); f != nil {
			return f.flags &^ syscall.O_CLOEXEC, nil
		}
		if fd >= 0 && fd <= 2 {
			return syscall.O_RDWR, nil
		}
		return -1, syscall.EBADF
	case syscall.F_DUPFD_CLOEXEC, syscall.F_DUPFD:
		return p.Dup(fd)
	case syscall.F_GETFD, syscall.F_SETFD:
		return 0, nil
	case syscall.F_SETFL:
		if f := p.file(fd); f != nil {
			const can = syscall.O_APPEND | syscall.O_NONBLOCK
			f.flags = f.flags&^can | arg&can
		}
		return 0, nil
	}
	return -1, syscall.EINVAL
}

func (p *Proc) Fsync(fd int) error {
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	return p.meta("fsync", f.path, func() error {
		if f.node.Dir {
			f.node.syncedEnts = map[string]*Node{}
			for k, c := range f.node.Ents {
				f.node.syncedEnts[k] = c
			}
			return nil
		}
		f.node.synced, f.node.syncedOnce = append([]byte(nil), f.node.Data...), true
		return nil
	})
}

// held is an advisory lock: of an open file (flock), or of a process.
type held struct {
	file *openFile
	proc *Proc
	excl bool
}

// lock takes (op 1 shared, 2 exclusive) or drops (0) a lock. A process is
// alive until it has ended; what it held is free then.
func (n *Node) lock(h held, op int, posix bool) bool {
	keep := n.locks[:0:0]
	free := true
	for _, o := range n.locks {
		mine := (o.file == nil) == posix && (posix && o.proc == h.proc || !posix && o.file == h.file)
		if mine || o.proc.Exited || o.proc.Crashed || o.file != nil && o.file.refs <= 0 {
			continue
		}
		keep = append(keep, o)
		if (o.file == nil) == posix && (op == 2 || o.excl) {
			free = false
		}
	}
	if op != 0 && !free {
		return false
	}
	if op != 0 {
		h.excl = op == 2
		if posix {
			h.file = nil
		}
		keep = append(keep, h)
	}
	n.locks = keep
	return true
}

func (p *Proc) lockFile(f *openFile, op int, wait, posix bool) error {
	for {
		err := p.meta("flock", f.path, func() error {
			if f.node.lock(held{file: f, proc: p}, op, posix) {
				return nil
			}
			return syscall.EWOULDBLOCK
		})
		if err != syscall.EWOULDBLOCK || !wait {
			return err
		}
		p.Counts["flock:wait"]++
		simrt.Elapse(1_000_000)
		simrt.GiveWay()
	}
}

func (p *Proc) Flock(fd, how int) error {
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	op := 0
	switch how &^ syscall.LOCK_NB {
	case syscall.LOCK_SH:
		op = 1
	case syscall.LOCK_EX:
		op = 2
	case syscall.LOCK_UN:
	default:
		return syscall.EINVAL
	}
	return p.lockFile(f, op, how&syscall.LOCK_NB == 0, false)
}

// FcntlFlock locks files as a whole.
func (p *Proc) FcntlFlock(fd, cmd int, lk *syscall.Flock_t) error {
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	op := map[int16]int{syscall.F_RDLCK: 1, syscall.F_WRLCK: 2, syscall.F_UNLCK: 0}[lk.Type]
	const ofdGet, ofdSet, ofdSetW = 36, 37, 38
	switch cmd {
	case syscall.F_SETLK, syscall.F_SETLKW:
		return p.lockFile(f, op, cmd == syscall.F_SETLKW, true)
	case ofdSet, ofdSetW:
		return p.lockFile(f, op, cmd == ofdSetW, false)
	}
	return syscall.EINVAL
}

func (p *Proc) fill(n *Node, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino = n.Ino
	st.Nlink = uint64(p.M.names(n))
	st.Uid, st.Gid = 1000, 1000
	st.Mode = n.Mode
	if n.Dir {
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	} else {
		st.Mode |= syscall.S_IFREG
		st.Size = int64(len(n.Data))
	}
	if n.Link {
		st.Mode = st.Mode&^syscall.S_IFREG | syscall.S_IFLNK
	}
	if n.Pipe {
		st.Mode = st.Mode&^syscall.S_IFREG | syscall.S_IFIFO
	}
	if n.Pipe || n.NoSize {
		st.Size = 0
	}
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Dev = 1
	st.Mtim.Sec, st.Mtim.Nsec = 1_000_000_000+n.Mtime/1_000_000_000, n.Mtime%1_000_000_000
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func (p *Proc) Fstat(fd int, st *syscall.Stat_t) error {
	if fd >= 0 && fd <= 2 {
		*st = syscall.Stat_t{}
		st.Mode = syscall.S_IFIFO | 0o600
		return nil
	}
	f := p.file(fd)
	if f == nil {
		return syscall.EBADF
	}
	return p.meta("stat", f.path, func() error { p.fill(f.node, st); return nil })
}

func (p *Proc) Stat_(name string, st *syscall.Stat_t, flags int) error {
	abs := p.abs(name, flags&nofollow == 0)
	return p.meta("stat", abs, func() error {
		if name == "" {
			return syscall.ENOENT
		}
		n := p.M.Entry(abs)
		if n == nil {
			if _, _, err := p.M.parent(abs); err == syscall.ENOTDIR {
				return err
			}
			return syscall.ENOENT
		}
		p.fill(n, st)
		return nil
	})
}

func (p *Proc) Seek(fd int, off int64, whence int) (int64, error) {
	f := p.file(fd)
	if f == nil {
		if fd >= 0 && fd <= 2 {
			return -1, syscall.ESPIPE
		}
		return -1, syscall.EBADF
	}
	if f.node.Pipe {
		return -1, syscall.ESPIPE
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.node.Data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	f.off = off
	f.dirpos = int(off)
	return off, nil
}

func (p *Proc) Getdents(fd int, buf []byte) (int, error) {
	f := p.file(fd)
	if f == nil {
		return -1, syscall.EBADF
	}
	return p.call("getdents", f.class, f.path, func(*Fault) (int, error) {
		if !f.node.Dir {
			return -1, syscall.ENOTDIR
		}
		var names []string
		for k := range f.node.Ents {
			names = append(names, k)
		}
		sort.Strings(names)
		n := 0
		for f.dirpos < len(names) {
			name := names[f.dirpos]
			l := (19 + len(name) + 1 + 7) &^ 7
			if n+l > len(buf) {
				break
			}
			c := f.node.Ents[name]
			b := buf[n : n+l]
			for i := range b {
				b[i] = 0
			}
			*(*uint64)(unsafe.Pointer(&b[0])) = c.Ino
			*(*uint64)(unsafe.Pointer(&b[8])) = uint64(f.dirpos + 1)
			*(*uint16)(unsafe.Pointer(&b[16])) = uint16(l)
			b[18] = syscall.DT_REG
			if c.Dir {
				b[18] = syscall.DT_DIR
			} else if c.Link {
				b[18] = syscall.DT_LNK
			}
			copy(b[19:], name)
			n += l
			f.dirpos++
		}
		return n, nil
	})
}

func (p *Proc) Exit(code int) {
	if !p.Exited && !p.Crashed {
		p.Exited = true
		p.Code = code & 0xff
	}
	p.end()
}

// Finish is the return of main.
func (p *Proc) Finish() {
	if !p.Exited && !p.Crashed {
		p.Exited = true
		p.Code = 0
		p.flushMaps()
		simrt.Kill(p.Group)
	}
}

// Unsupported is set when a task makes a call the simulation does not model.
var Unsupported string

// Table maps groups to processes; entry 0 serves the harness itself.
var Table [64]*Proc

// Kernel dispatches system calls to the calling task's process.
type Kernel struct{}

func cur() *Proc {
	p := Table[simrt.Group()]
	if p == nil {
		runtime.SimSetTask(0)
		syscall.Write(2, append([]byte("kern: system call by a task without a process\n"), debug.Stack()...))
		syscall.Exit(3)
	}
	return p
}

func (Kernel) At(dirfd int, path string) string { return cur().At(dirfd, path) }
func (Kernel) Open(path string, flags int, mode uint32) (int, error) {
	return cur().Open(path, flags, mode)
}
func (Kernel) Chown(path string, flags int) error { return cur().Chown(path, flags) }
func (Kernel) Fchown(fd int) error                { return cur().Fchown(fd) }
func (Kernel) Utimes(path string, ns [2]int64, flags int) error {
	return cur().Utimes(path, ns, flags)
}
func (Kernel) Statfs(path string, fd int, st *syscall.Statfs_t) error {
	return cur().Statfs(path, fd, st)
}
func (Kernel) Pipe() (r, w int, err error) { return cur().Pipe() }
func (Kernel) Sync()                       { cur().Sync() }
func (Kernel) Kill(pid, sig int) error     { return cur().Kill(pid, sig) }
func (Kernel) Sleep(ns int64) error        { return cur().Sleep(ns) }
func (Kernel) Mmap(length, prot, flags, fd int, off int64) (uintptr, error) {
	return cur().Mmap(length, prot, flags, fd, off)
}
func (Kernel) Munmap(addr uintptr) error { return cur().Munmap(addr) }
func (Kernel) Notify(op int, key any, deliver func(int), sigs []int) {
	cur().Notify(op, key, deliver, sigs)
}
func (Kernel) Ignored(sig int) bool { return cur().Ignored(sig) }
func (Kernel) Fchdir(fd int) error  { return cur().Fchdir(fd) }
func (Kernel) Limit() uint64 {
	if n := cur().MaxFDs; n > 0 {
		return uint64(n) + 3
	}
	return 1024
}
func (Kernel) Readlink(path string, buf []byte) (int, error) { return cur().Readlink(path, buf) }
func (Kernel) Unlink(path string, flags int) error           { return cur().Unlink(path, flags) }
func (Kernel) Chmod(path string, mode uint32, flags int) error {
	return cur().Chmod(path, mode, flags)
}
func (Kernel) Access(path string, mode uint32) error { return cur().Access(path, mode) }
func (Kernel) Link(o, n string) error                { return cur().Link(o, n) }
func (Kernel) Symlink(o, n string) error             { return cur().Symlink(o, n) }
func (Kernel) Getcwd(buf []byte) (int, error)        { return cur().Getcwd(buf) }
func (Kernel) Chdir(path string) error               { return cur().Chdir(path) }
func (Kernel) Close(fd int) error                    { return cur().Close_(fd) }
func (Kernel) Dup(fd int) (int, error)               { return cur().Dup(fd) }
func (Kernel) Dup3(o, n int) error                   { return cur().Dup3(o, n) }
func (Kernel) Fcntl(fd, cmd, arg int) (int, error)   { return cur().Fcntl(fd, cmd, arg) }
func (Kernel) Fsync(fd int) error                    { return cur().Fsync(fd) }
func (Kernel) Flock(fd, how int) error               { return cur().Flock(fd, how) }
func (Kernel) FcntlFlock(fd, cmd int, lk *syscall.Flock_t) error {
	return cur().FcntlFlock(fd, cmd, lk)
}

func (Kernel) Fchmod(fd int, mode uint32) error              { return cur().Fchmod(fd, mode) }
func (Kernel) Getdents(fd int, buf []byte) (int, error)      { return cur().Getdents(fd, buf) }
func (Kernel) Getpid() int                                   { return PidBase + cur().ID }
func (Kernel) Mkdir(path string, mode uint32) error          { return cur().Mkdir(path, mode) }
func (Kernel) Read(fd int, p []byte, off int64) (int, error) { return cur().Read_(fd, p, off) }
func (Kernel) Write(fd int, p []byte, off int64) (int, error) {
	return cur().Write_(fd, p, off)
}
func (Kernel) Rename(o, n string) error                     { return cur().Rename(o, n) }
func (Kernel) Fstat(fd int, st *syscall.Stat_t) error       { return cur().Fstat(fd, st) }
func (Kernel) Ftruncate(fd int, n int64) error              { return cur().Ftruncate(fd, n) }
func (Kernel) Truncate(path string, n int64) error          { return cur().Truncate(path, n) }
func (Kernel) Seek(fd int, off int64, w int) (int64, error) { return cur().Seek(fd, off, w) }
func (Kernel) Stat(path string, st *syscall.Stat_t, flags int) error {
	return cur().Stat_(path, st, flags)
}
func (Kernel) Exit(code int) {
	if simrt.Group() == 0 {
		panic("os.Exit called by library code")
	}
	cur().Exit(code)
}

// PidBase is added to a process's number to make its process id.
var PidBase = 4000
