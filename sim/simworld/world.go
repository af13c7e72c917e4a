// Package simworld is the simulated operating system that the shims under
// verif.sim/shim present to instrumented code: files, processes, environment,
// terminal, dialling and randomness. Nothing here touches the real system.
package simworld

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.sim/simrt"
)

// W is the current world (nil: every use of the operating system panics).
var W *World

// World is a simulated machine.
type World struct {
	Sim     *simrt.Sim
	FS      *FS
	Default *Proc
	// Exec runs a child process.
	Exec func(c *Cmd)
	// ExecStart may fail the start of a child process.
	ExecStart func(c *Cmd) error
	// Dial makes a network connection.
	Dial func(network, addr string) (io.ReadWriteCloser, error)
	// ReadPassword reads from the terminal.
	ReadPassword func(fd int) ([]byte, error)
	// RandFault may fail a read of randomness.
	RandFault func(n int) error
	Rand      *rand.Rand
	RandReads int
	// RandTap sees every byte handed out
	RandTap func(b []byte)
}

// New makes a world for one run. The randomness handed to the code under test
// is a function of the seed of the run.
func New(s *simrt.Sim, randSeed int64) *World {
	w := &World{Sim: s, FS: NewFS(), Rand: rand.New(rand.NewSource(randSeed))}
	w.Default = w.NewProc("proc")
	W = w
	return w
}

// Proc is a simulated process.
type Proc struct {
	W      *World
	Name   string
	Env    map[string]string
	Cwd    string
	Stdin  io.Reader
	Stdout io.Writer
	Stderr io.Writer
	// StdoutClose, if set, decides the result of closing standard output
	StdoutClose  func() error
	StdoutClosed bool
	Exited       bool
	Code         int
	Dead         bool
	Pid          int
	gs           []*simrt.G
}

// NewProc makes a process.
func (w *World) NewProc(name string) *Proc {
	return &Proc{W: w, Name: name, Env: map[string]string{}, Cwd: "/", Stdin: strings.NewReader(""), Stdout: io.Discard, Stderr: io.Discard, Pid: 1000}
}

// Start runs f as the main goroutine of p; when f returns the process has
// exited with code 0.
func (p *Proc) Start(f func()) *simrt.G {
	g := p.W.Sim.GoProc(p.Name, p, func() {
		f()
		p.Exited = true
	})
	p.gs = append(p.gs, g)
	return g
}

// Kill ends the process at once: its goroutines run no further.
func (p *Proc) Kill() {
	p.Dead = true
	p.W.Sim.Doom(p)
}

// Exit ends the process with a code; called by the process itself.
func (p *Proc) Exit(code int) {
	if !p.Exited && !p.Dead {
		p.Exited = true
		p.Code = code
		p.W.Sim.Logf("exit %s code=%d", p.Name, code)
	}
	p.Kill()
	simrt.CheckDoom()
	panic("simworld: os.Exit outside a process")
}

// Cur returns the current process.
func Cur() *Proc {
	if W == nil {
		panic("simworld: operating system used outside a simulation")
	}
	if s := simrt.S; s != nil && s.Cur() != nil {
		if p, ok := s.Cur().Proc.(*Proc); ok {
			return p
		}
	}
	return W.Default
}

// Getenv for code that may run in package initialisation.
func Getenv(k string) (string, bool) {
	if W == nil {
		return "", false
	}
	v, ok := Cur().Env[k]
	return v, ok
}

// RandRead fills b.
func RandRead(b []byte) (int, error) {
	if W == nil {
		// package initialisation: constant bytes
		for i := range b {
			b[i] = byte(i * 37)
		}
		return len(b), nil
	}
	simrt.Yield()
	W.RandReads++
	if W.RandFault != nil {
		if err := W.RandFault(len(b)); err != nil {
			n := 0
			if len(b) > 1 {
				n = W.Rand.Intn(len(b))
				W.Rand.Read(b[:n])
			}
			return n, err
		}
	}
	W.Rand.Read(b)
	if W.RandTap != nil {
		W.RandTap(b)
	}
	return len(b), nil
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) { return RandRead(b) }

// RandReader is crypto/rand.Reader.
var RandReader io.Reader = randReader{}

// ---- files ----

type inode struct {
	id      int
	dir     bool
	data    []byte
	durable []byte // content as of the last sync
	dirty   bool
	kids    map[string]*inode
	mode    fs.FileMode
	mtime   time.Time
	nlink   int
}

// dirOp is one directory modification not yet durable.
type dirOp struct {
	dir  *inode
	name string
	node *inode // nil: removed
}

// Op describes a file system operation to the fault hook.
type Op struct {
	Kind  string // open create write read close sync rename remove mkdir stat readdir glob
	Path  string
	Path2 string
	N     int
	Proc  *Proc
}

// Fault is what the hook decides.
type Fault struct {
	Err   error
	N     int  // bytes transferred before Err, or before a short result; -1: all
	Short bool // a successful short read
	Crash bool // the process dies here (after transferring N bytes)
}

// FS is a file system.
type FS struct {
	root   *inode
	shadow map[*inode]map[string]*inode // durable view of directories
	log    []dirOp
	nextID int
	nTmp   int
	Hook   func(op Op) Fault
	// Trace of modifications: kind, path
	Events  []Event
	OnEvent func(e Event)
	Limit  int // bytes; 0: unlimited
	open   map[*File]bool
}

// Event is a modification of the file system.
type Event struct {
	Kind, Path string
	G          *simrt.G // the goroutine that did it
}

// NewFS makes an empty file system.
func NewFS() *FS {
	f := &FS{shadow: map[*inode]map[string]*inode{}, open: map[*File]bool{}}
	f.root = f.mk(true)
	f.shadow[f.root] = map[string]*inode{}
	return f
}

func (f *FS) mk(dir bool) *inode {
	f.nextID++
	n := &inode{id: f.nextID, dir: dir, mode: 0644, mtime: time.Now(), nlink: 1}
	if dir {
		n.kids = map[string]*inode{}
		n.mode = 0755 | fs.ModeDir
	}
	return n
}

func clean(p *Proc, name string) string {
	if !strings.HasPrefix(name, "/") {
		name = p.Cwd + "/" + name
	}
	return path.Clean(name)
}

func (f *FS) walk(name string) (*inode, error) {
	n := f.root
	if name == "/" {
		return n, nil
	}
	for _, c := range strings.Split(strings.TrimPrefix(name, "/"), "/") {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		k := n.kids[c]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

func (f *FS) parent(name string) (*inode, string, error) {
	d, err := f.walk(path.Dir(name))
	if err != nil {
		return nil, "", err
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, path.Base(name), nil
}

func (f *FS) setEntry(d *inode, name string, n *inode) {
	if n == nil {
		delete(d.kids, name)
	} else {
		d.kids[name] = n
	}
	f.log = append(f.log, dirOp{d, name, n})
}

func (f *FS) event(kind, p string) {
	e := Event{Kind: kind, Path: p}
	if s := simrt.S; s != nil {
		e.G = s.Cur()
	}
	f.Events = append(f.Events, e)
	if f.OnEvent != nil {
		f.OnEvent(e)
	}
}

func (f *FS) hook(op Op) Fault {
	simrt.Yield()
	simrt.CheckDoom()
	if f.Hook == nil {
		return Fault{N: -1}
	}
	return f.Hook(op)
}

func (f *FS) crash(p *Proc) {
	p.Kill()
	simrt.CheckDoom()
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// Used counts stored bytes.
func (f *FS) Used() int {
	t := 0
	seen := map[*inode]bool{}
	var rec func(*inode)
	rec = func(n *inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		t += len(n.data)
		for _, k := range n.kids {
			rec(k)
		}
	}
	rec(f.root)
	return t
}

// File is an open file.
type File struct {
	fs     *FS
	n      *inode
	name   string
	path   string
	off    int64
	rd, wr bool
	app    bool
	closed bool
	std    int // 1: stdin, 2: stdout, 3: stderr
	proc   *Proc
	dirpos int
}

// StdFile is a standard stream of the current process.
func StdFile(i int, name string) *File { return &File{std: i, name: name} }

// OpenFile opens a file.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p := Cur()
	f := p.W.FS
	full := clean(p, name)
	kind := "open"
	if flag&syscall.O_CREAT != 0 {
		kind = "create"
	}
	ft := f.hook(Op{Kind: kind, Path: full, Proc: p})
	if ft.Err != nil {
		return nil, perr("open", name, ft.Err)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	n, err := f.walk(full)
	if err == nil && flag&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if err == syscall.ENOENT && flag&syscall.O_CREAT != 0 {
		d, base, e := f.parent(full)
		if e != nil {
			return nil, perr("open", name, e)
		}
		n = f.mk(false)
		n.mode = perm & 0777
		f.setEntry(d, base, n)
		f.event("create", full)
		err = nil
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.dir && wr {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if n.mode&0444 == 0 && !wr || wr && n.mode&0222 == 0 && false {
		return nil, perr("open", name, syscall.EACCES)
	}
	if flag&syscall.O_TRUNC != 0 && wr && len(n.data) > 0 {
		n.data = nil
		n.dirty = true
		f.event("truncate", full)
	}
	file := &File{fs: f, n: n, name: name, path: full, rd: flag&syscall.O_WRONLY == 0, wr: wr, app: flag&syscall.O_APPEND != 0, proc: p}
	f.open[file] = true
	if ft.Crash {
		f.crash(p)
	}
	return file, nil
}

// Name is the name given to open.
func (f *File) Name() string { return f.name }

// Fd is a fake descriptor.
func (f *File) Fd() uintptr {
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return 10
}

var errClosed = fs.ErrClosed

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.std == 1 {
		simrt.Yield()
		n, err := Cur().Stdin.Read(b)
		return n, err
	}
	if f.closed {
		return 0, perr("read", f.name, errClosed)
	}
	if !f.rd {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	ft := f.fs.hook(Op{Kind: "read", Path: f.path, N: len(b), Proc: f.proc})
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if ft.Err != nil {
		return 0, perr("read", f.name, ft.Err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	if ft.Short && n > 1 {
		if ft.N > 0 && ft.N < n {
			n = ft.N
		} else {
			n = 1
		}
	}
	f.off += int64(n)
	return n, nil
}

// ReadAt reads at an offset.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = off
	n, err := io.ReadFull(f, b)
	f.off = o
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if f.std > 1 {
		simrt.Yield()
		simrt.CheckDoom()
		p := Cur()
		if f.std == 2 {
			if p.StdoutClosed {
				return 0, perr("write", f.name, errClosed)
			}
			n, err := p.Stdout.Write(b)
			return n, err
		}
		return p.Stderr.Write(b)
	}
	if f.closed {
		return 0, perr("write", f.name, errClosed)
	}
	if !f.wr {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	ft := f.fs.hook(Op{Kind: "write", Path: f.path, N: len(b), Proc: f.proc})
	k := len(b)
	if (ft.Err != nil || ft.Crash) && ft.N >= 0 && ft.N < k {
		k = ft.N
	}
	var err error = nil
	if ft.Err != nil {
		err = perr("write", f.name, ft.Err)
	}
	if f.fs.Limit > 0 {
		if room := f.fs.Limit - f.fs.Used(); room < k {
			if room < 0 {
				room = 0
			}
			k = room
			err = perr("write", f.name, syscall.ENOSPC)
		}
	}
	if f.app {
		f.off = int64(len(f.n.data))
	}
	for int64(len(f.n.data)) < f.off+int64(k) {
		f.n.data = append(f.n.data, 0)
	}
	if k > 0 {
		// files may be shared with snapshots of their durable content
		f.n.data = append([]byte(nil), f.n.data...)
		copy(f.n.data[f.off:], b[:k])
		f.off += int64(k)
		f.n.dirty = true
		f.fs.event("write", f.path)
	}
	f.n.mtime = time.Now()
	if ft.Crash {
		f.fs.crash(f.proc)
	}
	return k, err
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off = off
	n, err := f.Write(b)
	f.off = o
	return n, err
}

// Seek moves the offset.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, perr("seek", f.name, errClosed)
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

// Truncate sets the size.
func (f *File) Truncate(size int64) error {
	if f.closed {
		return perr("truncate", f.name, errClosed)
	}
	d := make([]byte, size)
	copy(d, f.n.data)
	f.n.data = d
	f.n.dirty = true
	f.fs.event("truncate", f.path)
	return nil
}

// Sync makes the file durable.
func (f *File) Sync() error {
	if f.std > 0 {
		return nil
	}
	if f.closed {
		return perr("sync", f.name, errClosed)
	}
	ft := f.fs.hook(Op{Kind: "sync", Path: f.path, Proc: f.proc})
	if ft.Err != nil {
		return perr("sync", f.name, ft.Err)
	}
	f.n.durable = append([]byte(nil), f.n.data...)
	f.n.dirty = false
	f.fs.commit()
	if ft.Crash {
		f.fs.crash(f.proc)
	}
	return nil
}

// Close closes the file.
func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.std > 0 {
		p := Cur()
		simrt.Yield()
		simrt.CheckDoom()
		if f.std == 2 {
			if p.StdoutClosed {
				return perr("close", f.name, errClosed)
			}
			p.StdoutClosed = true
			if p.StdoutClose != nil {
				return p.StdoutClose()
			}
		}
		return nil
	}
	if f.closed {
		return perr("close", f.name, errClosed)
	}
	ft := f.fs.hook(Op{Kind: "close", Path: f.path, Proc: f.proc})
	f.closed = true
	delete(f.fs.open, f)
	if ft.Crash {
		f.fs.crash(f.proc)
	}
	return perr("close", f.name, ft.Err)
}

// Chmod changes the mode.
func (f *File) Chmod(m fs.FileMode) error { f.n.mode = m; return nil }

// Stat describes the file.
func (f *File) Stat() (fs.FileInfo, error) {
	if f.std > 0 {
		return &info{name: f.name, n: &inode{mode: fs.ModeNamedPipe}}, nil
	}
	if f.closed {
		return nil, perr("stat", f.name, errClosed)
	}
	return &info{path.Base(f.path), f.n}, nil
}

// Readdirnames lists names.
func (f *File) Readdirnames(n int) ([]string, error) {
	de, err := f.ReadDir(n)
	var out []string
	for _, d := range de {
		out = append(out, d.Name())
	}
	return out, err
}

// Readdir lists infos.
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	de, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, d := range de {
		i, _ := d.Info()
		out = append(out, i)
	}
	return out, err
}

// ReadDir lists entries in an order chosen by the simulator.
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	ft := f.fs.hook(Op{Kind: "readdir", Path: f.path, Proc: f.proc})
	if ft.Err != nil {
		return nil, perr("readdirent", f.name, ft.Err)
	}
	if !f.n.dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	var out []fs.DirEntry
	for _, k := range simrt.MapKeys(f.n.kids) {
		out = append(out, fs.FileInfoToDirEntry(&info{k, f.n.kids[k]}))
	}
	if n > 0 {
		if f.dirpos >= len(out) {
			return nil, io.EOF
		}
		out = out[f.dirpos:]
		if len(out) > n {
			out = out[:n]
		}
		f.dirpos += len(out)
	}
	return out, nil
}

type info struct {
	name string
	n    *inode
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return int64(len(i.n.data)) }
func (i *info) Mode() fs.FileMode  { return i.n.mode }
func (i *info) ModTime() time.Time { return i.n.mtime }
func (i *info) IsDir() bool        { return i.n.dir }
func (i *info) Sys() interface{}   { return nil }

// Stat describes a path.
func Stat(name string) (fs.FileInfo, error) {
	p := Cur()
	f := p.W.FS
	full := clean(p, name)
	ft := f.hook(Op{Kind: "stat", Path: full, Proc: p})
	if ft.Err != nil {
		return nil, perr("stat", name, ft.Err)
	}
	n, err := f.walk(full)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return &info{path.Base(full), n}, nil
}

// SameFile reports whether two infos are one file.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n == y.n
}

// ReadDir lists a directory sorted by name.
func ReadDir(name string) ([]fs.DirEntry, error) {
	d, err := OpenFile(name, 0, 0)
	if err != nil {
		return nil, err
	}
	defer d.Close()
	out, err := d.ReadDir(-1)
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, err
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	d, err := OpenFile(name, 0, 0)
	if err != nil {
		return nil, err
	}
	defer d.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := d.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// WriteFile writes a whole file.
func WriteFile(name string, b []byte, perm fs.FileMode) error {
	d, err := OpenFile(name, syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY, perm)
	if err != nil {
		return err
	}
	_, err = d.Write(b)
	if e := d.Close(); err == nil {
		err = e
	}
	return err
}

// Mkdir makes a directory.
func Mkdir(name string, perm fs.FileMode) error {
	p := Cur()
	f := p.W.FS
	full := clean(p, name)
	ft := f.hook(Op{Kind: "mkdir", Path: full, Proc: p})
	if ft.Err != nil {
		return perr("mkdir", name, ft.Err)
	}
	if _, err := f.walk(full); err == nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d, base, err := f.parent(full)
	if err != nil {
		return perr("mkdir", name, err)
	}
	n := f.mk(true)
	f.shadow[n] = map[string]*inode{}
	f.setEntry(d, base, n)
	f.event("mkdir", full)
	if ft.Crash {
		f.crash(p)
	}
	return nil
}

// MkdirAll makes a directory and its parents.
func MkdirAll(name string, perm fs.FileMode) error {
	p := Cur()
	full := clean(p, name)
	cur := ""
	for _, c := range strings.Split(strings.TrimPrefix(full, "/"), "/") {
		cur += "/" + c
		n, err := p.W.FS.walk(cur)
		if err == nil {
			if !n.dir {
				return perr("mkdir", cur, syscall.ENOTDIR)
			}
			continue
		}
		if err := Mkdir(cur, perm); err != nil && !errors.Is(err, fs.ErrExist) {
			return err
		}
	}
	return nil
}

// Remove removes a file or empty directory.
func Remove(name string) error {
	p := Cur()
	f := p.W.FS
	full := clean(p, name)
	ft := f.hook(Op{Kind: "remove", Path: full, Proc: p})
	if ft.Err != nil {
		return perr("remove", name, ft.Err)
	}
	n, err := f.walk(full)
	if err != nil {
		return perr("remove", name, err)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	d, base, err := f.parent(full)
	if err != nil || n == f.root {
		return perr("remove", name, syscall.EINVAL)
	}
	f.setEntry(d, base, nil)
	f.event("remove", full)
	if ft.Crash {
		f.crash(p)
	}
	return nil
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	p := Cur()
	full := clean(p, name)
	n, err := p.W.FS.walk(full)
	if err != nil {
		return nil
	}
	if n.dir {
		for _, k := range simrt.MapKeys(n.kids) {
			if err := RemoveAll(full + "/" + k); err != nil {
				return err
			}
		}
	}
	return Remove(full)
}

// Rename renames a file.
func Rename(from, to string) error {
	p := Cur()
	f := p.W.FS
	a, b := clean(p, from), clean(p, to)
	ft := f.hook(Op{Kind: "rename", Path: a, Path2: b, Proc: p})
	lerr := func(err error) error { return &LinkError{"rename", from, to, err} }
	if ft.Err != nil {
		return lerr(ft.Err)
	}
	n, err := f.walk(a)
	if err != nil {
		return lerr(err)
	}
	da, ba, err := f.parent(a)
	if err != nil {
		return lerr(err)
	}
	db, bb, err := f.parent(b)
	if err != nil {
		return lerr(err)
	}
	if old := db.kids[bb]; old != nil && old.dir != n.dir {
		if old.dir {
			return lerr(syscall.EISDIR)
		}
		return lerr(syscall.ENOTDIR)
	}
	if a != b {
		f.setEntry(db, bb, n)
		f.setEntry(da, ba, nil)
		f.event("remove", a)
		f.event("create", b)
	}
	if ft.Crash {
		f.crash(p)
	}
	return nil
}

// Link makes a hard link.
func Link(from, to string) error {
	p := Cur()
	f := p.W.FS
	a, b := clean(p, from), clean(p, to)
	ft := f.hook(Op{Kind: "link", Path: a, Path2: b, Proc: p})
	lerr := func(err error) error { return &LinkError{"link", from, to, err} }
	if ft.Err != nil {
		return lerr(ft.Err)
	}
	n, err := f.walk(a)
	if err != nil {
		return lerr(err)
	}
	db, bb, err := f.parent(b)
	if err != nil {
		return lerr(err)
	}
	if db.kids[bb] != nil {
		return lerr(syscall.EEXIST)
	}
	f.setEntry(db, bb, n)
	f.event("create", b)
	return nil
}

// LinkError is os.LinkError.
type LinkError struct {
	Op  string
	Old string
	New string
	Err error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }

// Unwrap gives the cause.
func (e *LinkError) Unwrap() error { return e.Err }

// Temp makes a temporary file or directory.
func Temp(dir, pattern string, isdir bool) (*File, string, error) {
	p := Cur()
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		p.W.FS.nTmp++
		name := path.Join(dir, pre+itoa(314159*p.W.FS.nTmp+27)+suf)
		if isdir {
			err := Mkdir(name, 0700)
			if errors.Is(err, fs.ErrExist) && try < 100 {
				continue
			}
			return nil, name, err
		}
		f, err := OpenFile(name, syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL, 0600)
		if errors.Is(err, fs.ErrExist) && try < 100 {
			continue
		}
		return f, name, err
	}
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

// TempDir is $TMPDIR or /tmp.
func TempDir() string {
	if v, _ := Getenv("TMPDIR"); v != "" {
		return v
	}
	return "/tmp"
}

// Glob lists the paths matching a pattern, as filepath.Glob does.
func Glob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	p := Cur()
	ft := p.W.FS.hook(Op{Kind: "glob", Path: pattern, Proc: p})
	if ft.Err != nil {
		return nil, nil // Glob ignores I/O errors
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := p.W.FS.walk(clean(p, pattern)); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := path.Split(pattern)
	switch {
	case dir == "":
		dir = "."
	case dir != "/":
		dir = strings.TrimSuffix(dir, "/")
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		n, err := p.W.FS.walk(clean(p, d))
		if err != nil || !n.dir {
			continue
		}
		var names []string
		for k := range n.kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if ok, _ := path.Match(file, k); ok {
				out = append(out, path.Join(d, k))
			}
		}
	}
	return out, nil
}

// ---- harness side: no hooks, no yields ----

// Put writes a file directly and durably.
func (f *FS) Put(name string, b []byte) {
	d := f.MkdirAll(path.Dir(name))
	n := d.kids[path.Base(name)]
	if n == nil || n.dir {
		n = f.mk(false)
		d.kids[path.Base(name)] = n
	}
	n.data = append([]byte(nil), b...)
	n.durable = n.data
	n.dirty = false
	f.commit()
	f.shadow[d][path.Base(name)] = n
}

// MkdirAll makes directories directly.
func (f *FS) MkdirAll(name string) *inode {
	n := f.root
	if name == "/" || name == "." {
		return n
	}
	for _, c := range strings.Split(strings.TrimPrefix(path.Clean(name), "/"), "/") {
		k := n.kids[c]
		if k == nil {
			k = f.mk(true)
			f.shadow[k] = map[string]*inode{}
			n.kids[c] = k
			f.shadow[n][c] = k
		}
		n = k
	}
	return n
}

// Chmod sets a mode directly.
func (f *FS) Chmod(name string, m fs.FileMode) {
	if n, err := f.walk(name); err == nil {
		n.mode = n.mode&^0777 | m
	}
}

// Get reads a file directly.
func (f *FS) Get(name string) ([]byte, bool) {
	n, err := f.walk(name)
	if err != nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// Del removes a path directly.
func (f *FS) Del(name string) {
	d, b, err := f.parent(name)
	if err == nil {
		delete(d.kids, b)
		delete(f.shadow[d], b)
	}
}

// Paths lists all files (not directories) below a directory.
func (f *FS) Paths(dir string) []string {
	var out []string
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		if !n.dir {
			out = append(out, p)
			return
		}
		for k, c := range n.kids {
			rec(strings.TrimSuffix(p, "/")+"/"+k, c)
		}
	}
	n, err := f.walk(path.Clean(dir))
	if err == nil {
		rec(path.Clean(dir), n)
	}
	sort.Strings(out)
	return out
}

// Snapshot maps every path to its content; directories map to "<dir>".
func (f *FS) Snapshot() map[string]string {
	out := map[string]string{}
	var rec func(p string, n *inode)
	rec = func(p string, n *inode) {
		if !n.dir {
			out[p] = string(n.data)
			return
		}
		if p != "" {
			out[p] = "<dir>"
		}
		for k, c := range n.kids {
			rec(p+"/"+k, c)
		}
	}
	rec("", f.root)
	return out
}

// commit makes all directory operations so far durable.
func (f *FS) commit() {
	for _, o := range f.log {
		f.apply(o)
	}
	f.log = nil
}

func (f *FS) apply(o dirOp) {
	m := f.shadow[o.dir]
	if m == nil {
		m = map[string]*inode{}
		f.shadow[o.dir] = m
	}
	if o.node == nil {
		delete(m, o.name)
	} else {
		m[o.name] = o.node
	}
}

// PowerLoss loses what was not durable: a prefix of the pending directory
// operations survives, and every unsynced file keeps its durable content, its
// new content, or a torn mixture.
func (f *FS) PowerLoss(s *simrt.Sim) {
	k := s.Choose(len(f.log) + 1)
	k = len(f.log) - k // 0: everything survives
	for _, o := range f.log[:k] {
		f.apply(o)
	}
	f.log = nil
	seen := map[*inode]bool{}
	var rec func(n *inode)
	rec = func(n *inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		if n.dir {
			n.kids = map[string]*inode{}
			var names []string
			for name := range f.shadow[n] {
				names = append(names, name)
			}
			sort.Strings(names)
			for _, name := range names {
				c := f.shadow[n][name]
				n.kids[name] = c
				rec(c)
			}
			return
		}
		if n.dirty {
			cur := n.data
			switch s.Choose(5) {
			case 0: // all of it arrived
			case 1:
				n.data = append([]byte(nil), n.durable...)
			case 2: // a prefix
				n.data = append([]byte(nil), cur[:s.Choose(len(cur)+1)]...)
			case 3: // full length, tail zero
				d := make([]byte, len(cur))
				copy(d, cur[:s.Choose(len(cur)+1)])
				n.data = d
			case 4: // a hole of zeros
				d := append([]byte(nil), cur...)
				if len(d) > 0 {
					i := s.Choose(len(d))
					for j := i; j < len(d) && j < i+1+s.Choose(512); j++ {
						d[j] = 0
					}
				}
				n.data = d
			}
			n.dirty = false
			n.durable = n.data
		}
	}
	rec(f.root)
}

// OpenFiles counts files still open by a process.
func (f *FS) OpenFiles(p *Proc) int {
	n := 0
	for o := range f.open {
		if o.proc == p {
			n++
		}
	}
	return n
}

// PseudoRead fills b from the run's deterministic stream (math/rand).
func PseudoRead(b []byte) {
	if W == nil {
		for i := range b {
			b[i] = byte(i*41 + 7)
		}
		return
	}
	W.Rand.Read(b)
}

// Stretch is the cheap stand-in for password hashing.
func Stretch(password, salt []byte, params string, n int) []byte {
	h := sha256.New()
	fmt.Fprintf(h, "%d:%s%d:%s%s", len(password), password, len(salt), salt, params)
	seed := h.Sum(nil)
	const max = 1 << 16
	long := n
	if n > max {
		n = max // nobody looks further than that; do not spend the time
	}
	var out []byte
	for i := 0; len(out) < n; i++ {
		b := sha256.Sum256(append(append([]byte(nil), seed...), byte(i), byte(i>>8)))
		out = append(out, b[:]...)
	}
	if n < 0 {
		panic("makeslice: len out of range")
	}
	if long > n {
		return append(out[:n], make([]byte, 64)...)
	}
	return out[:n]
}
