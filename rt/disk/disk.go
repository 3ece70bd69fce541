// Package disk is the simulated machine outside the program: file system with
// injected faults, arguments, environment and standard streams.
package disk

import (
	"bytes"
	"errors"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"

	"uniswap-simulator/zsim/rng"
	"uniswap-simulator/zsim/simrt"
)

type Inode struct {
	Dir     bool
	Data    []byte
	Durable []byte // content that survives power loss
	Mode    fs.FileMode
	NewName bool // directory entry not yet durable
}

// Fault is injected at the N-th operation of a kind (1-based).
type Fault struct {
	Op    string `json:"op"` // open, create, mkdir, read, write, close, sync, rename, remove, stat, any
	N     int    `json:"n"`
	Path  string `json:"path,omitempty"` // only operations on paths with this suffix
	Kind  string `json:"kind"`           // EIO, ENOSPC, EACCES, ENOENT, EROFS, EMFILE, EDQUOT, crash, powerloss
	Bytes int    `json:"bytes,omitempty"`
	// for writes: bytes that reach the disk before the error or crash
	fired bool
}

type World struct {
	Files      map[string]*Inode
	Args       []string
	Env        map[string]string
	Cwd        string
	Stdout     bytes.Buffer
	Stderr     bytes.Buffer
	Faults     []Fault
	Capacity   int64 // bytes, 0: unlimited
	ReadSeed   uint64
	ShortReads bool
	readRng    *rng.R
	counts     map[string]int
	Ops        int
	Log        []string
	Fired      map[string]int
	Touched    map[string]bool // paths written, created, renamed or removed
	PowerLoss  bool
	OpenFiles  int
	OnOp       func(kind, path string) // called before each operation
	FiredAt    []string                // operation and path of each fault that struck
}

// W is the machine of the run in progress.
var W *World

func New() *World {
	return &World{Files: map[string]*Inode{"/": {Dir: true, Mode: fs.ModeDir | 0o755}, "/work": {Dir: true, Mode: fs.ModeDir | 0o755}, "/tmp": {Dir: true, Mode: fs.ModeDir | 0o777}},
		Cwd: "/work", Env: map[string]string{}, counts: map[string]int{}, Fired: map[string]int{}, Touched: map[string]bool{}}
}

// Restart keeps only what is on the disk.
func (w *World) Restart() *World {
	n := New()
	n.Files = w.Files
	n.Args, n.Env = w.Args, w.Env
	return n
}

func (w *World) Clone() *World {
	n := w.Restart()
	n.Files = map[string]*Inode{}
	for k, v := range w.Files {
		c := *v
		c.Data = append([]byte(nil), v.Data...)
		c.Durable = append([]byte(nil), v.Durable...)
		n.Files[k] = &c
	}
	return n
}

func (w *World) Abs(p string) string {
	if !path.IsAbs(p) {
		p = w.Cwd + "/" + p
	}
	return path.Clean(p)
}

func (w *World) Put(p string, data []byte) {
	a := w.Abs(p)
	w.mkParents(a)
	w.Files[a] = &Inode{Data: append([]byte(nil), data...), Durable: append([]byte(nil), data...), Mode: 0o644}
}

// IsDir tells whether a folder of that name exists.
func (w *World) IsDir(p string) bool {
	n := w.Files[w.Abs(p)]
	return n != nil && n.Dir
}

// Prepare makes the folders a file lies in.
func (w *World) Prepare(p string) { w.mkParents(w.Abs(p)) }

func (w *World) mkParents(a string) {
	for d := path.Dir(a); ; d = path.Dir(d) {
		if w.Files[d] == nil {
			w.Files[d] = &Inode{Dir: true, Mode: fs.ModeDir | 0o755}
		}
		if d == "/" {
			return
		}
	}
}

func (w *World) Get(p string) ([]byte, bool) {
	n := w.Files[w.Abs(p)]
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

var errnos = map[string]error{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT,
	"EROFS": syscall.EROFS, "EMFILE": syscall.EMFILE, "EDQUOT": syscall.EDQUOT, "EPERM": syscall.EPERM,
}

// op counts an operation and returns the fault due at it.
func (w *World) op(kind, p string) *Fault {
	simrt.Y()
	w.Ops++
	w.counts[kind]++
	w.counts["any"]++
	if w.OnOp != nil {
		w.OnOp(kind, p)
	}
	var hit *Fault
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.fired || f.Op != kind && f.Op != "any" {
			continue
		}
		if f.Path != "" {
			if !strings.HasSuffix(p, f.Path) {
				continue
			}
		}
		if w.counts[f.Op] == f.N || f.Path != "" && f.N == 0 {
			f.fired = true
			hit = f
			w.Fired[kind+":"+f.Kind]++
			w.FiredAt = append(w.FiredAt, kind+" "+p)
			break
		}
	}
	if len(w.Log) < 400 {
		s := kind + " " + p
		if hit != nil {
			s += " !" + hit.Kind
		}
		w.Log = append(w.Log, s)
	}
	if hit != nil && hit.Op != "write" && kind != "write" {
		w.crashIf(hit)
	}
	return hit
}

func (w *World) crashIf(f *Fault) {
	switch f.Kind {
	case "crash":
		simrt.Crash()
	case "powerloss":
		w.PowerLoss = true
		simrt.Crash()
	}
}

func (f *Fault) err() error {
	if f == nil {
		return nil
	}
	if e, ok := errnos[f.Kind]; ok {
		return e
	}
	return nil
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// LosePower applies a power failure: unsynced content and names survive only
// in part.
func (w *World) LosePower(r *rng.R) {
	var names []string
	for p := range w.Files {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range names {
		n := w.Files[p]
		if n.Dir {
			if n.NewName && r.P(0.3) && !w.hasChildren(p) {
				delete(w.Files, p)
			}
			continue
		}
		if n.NewName && r.P(0.4) {
			delete(w.Files, p)
			continue
		}
		if bytes.Equal(n.Data, n.Durable) {
			continue
		}
		switch r.Intn(4) {
		case 0: // nothing after the last sync
			n.Data = append([]byte(nil), n.Durable...)
		case 1: // a prefix
			n.Data = append([]byte(nil), n.Data[:r.Intn(len(n.Data)+1)]...)
		case 2: // size without content
			k := r.Intn(len(n.Data) + 1)
			for i := k; i < len(n.Data); i++ {
				n.Data[i] = 0
			}
		}
		n.Durable = append([]byte(nil), n.Data...)
	}
}

func (w *World) hasChildren(d string) bool {
	for p := range w.Files {
		if p != d && path.Dir(p) == d {
			return true
		}
	}
	return false
}

func (w *World) used() int64 {
	var s int64
	for _, n := range w.Files {
		s += int64(len(n.Data))
	}
	return s
}

const (
	ORdonly = syscall.O_RDONLY
	OWronly = syscall.O_WRONLY
	ORdwr   = syscall.O_RDWR
	OAppend = syscall.O_APPEND
	OCreate = syscall.O_CREAT
	OExcl   = syscall.O_EXCL
	OSync   = syscall.O_SYNC
	OTrunc  = syscall.O_TRUNC
)

type Handle struct {
	w      *World
	Path   string
	node   *Inode
	pos    int64
	flag   int
	closed bool
	mute   bool
}

var inert = &Handle{mute: true}

func (w *World) Open(name string, flag int, perm fs.FileMode) (*Handle, error) {
	if simrt.Dead() {
		return inert, nil
	}
	a := w.Abs(name)
	kind := "open"
	if flag&OCreate != 0 {
		kind = "create"
	}
	if f := w.op(kind, a); f.err() != nil {
		return nil, perr("open", name, f.err())
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	n := w.Files[a]
	if n == nil {
		if flag&OCreate == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := w.Files[path.Dir(a)]
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.Dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		if d.Mode&0o200 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		n = &Inode{Mode: perm, NewName: true}
		w.Files[a] = n
		w.Touched[a] = true
	} else {
		if flag&OCreate != 0 && flag&OExcl != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && flag&(OWronly|ORdwr) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&(OWronly|ORdwr) != 0 && n.Mode&0o200 == 0 || flag&(OWronly) == 0 && n.Mode&0o400 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&OTrunc != 0 && flag&(OWronly|ORdwr) != 0 {
			n.Data = nil
			w.Touched[a] = true
		}
	}
	w.OpenFiles++
	return &Handle{w: w, Path: name, node: n, flag: flag}, nil
}

var ErrClosed = fs.ErrClosed

func (h *Handle) Read(b []byte) (int, error) {
	if h.mute || simrt.Dead() {
		return 0, errEOF
	}
	if h.closed {
		return 0, perr("read", h.Path, ErrClosed)
	}
	if h.node.Dir {
		return 0, perr("read", h.Path, syscall.EISDIR)
	}
	f := h.w.op("read", h.w.Abs(h.Path))
	if h.flag&OWronly != 0 {
		return 0, perr("read", h.Path, syscall.EBADF)
	}
	if e := f.err(); e != nil {
		return 0, perr("read", h.Path, e)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= int64(len(h.node.Data)) {
		return 0, errEOF
	}
	max := len(b)
	if h.w.ShortReads {
		if h.w.readRng == nil {
			h.w.readRng = rng.New(h.w.ReadSeed)
		}
		r := h.w.readRng
		k := 1 + r.Intn(max)
		if r.P(0.3) {
			k = 1 + r.Intn(7)
		}
		if k < max {
			max = k
			h.w.Fired["read:short"]++
		}
	}
	n := copy(b[:max], h.node.Data[h.pos:])
	h.pos += int64(n)
	return n, nil
}

var errEOF = eof()

func (h *Handle) Write(b []byte) (int, error) {
	if h.mute || simrt.Dead() {
		return len(b), nil
	}
	if h.closed {
		return 0, perr("write", h.Path, ErrClosed)
	}
	a := h.w.Abs(h.Path)
	f := h.w.op("write", a)
	if h.flag&(OWronly|ORdwr) == 0 {
		return 0, perr("write", h.Path, syscall.EBADF)
	}
	n := len(b)
	var err error
	crash := false
	if f != nil {
		n = f.Bytes
		if n > len(b) {
			n = len(b)
		}
		if e := f.err(); e != nil {
			err = perr("write", h.Path, e)
		} else {
			crash = true
		}
	}
	if h.w.Capacity > 0 {
		room := h.w.Capacity - h.w.used()
		if room < 0 {
			room = 0
		}
		if int64(n) > room {
			n = int(room)
			err = perr("write", h.Path, syscall.ENOSPC)
			h.w.Fired["write:disk full"]++
			h.w.FiredAt = append(h.w.FiredAt, "write "+a)
		}
	}
	h.put(b[:n])
	h.w.Touched[a] = true
	if crash {
		h.w.crashIf(f)
	}
	simrt.Y()
	return n, err
}

func (h *Handle) put(b []byte) {
	if h.flag&OAppend != 0 {
		h.pos = int64(len(h.node.Data))
	}
	for int64(len(h.node.Data)) < h.pos {
		h.node.Data = append(h.node.Data, 0)
	}
	k := copy(h.node.Data[h.pos:], b)
	h.node.Data = append(h.node.Data, b[k:]...)
	h.pos += int64(len(b))
	if h.flag&OSync == OSync {
		h.node.Durable = append([]byte(nil), h.node.Data...)
		h.node.NewName = false
	}
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.mute {
		return 0, nil
	}
	switch whence {
	case 1:
		off += h.pos
	case 2:
		off += int64(len(h.node.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.Path, syscall.EINVAL)
	}
	h.pos = off
	return off, nil
}

func (h *Handle) Close() error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.mute || simrt.Dead() {
		return nil
	}
	if h.closed {
		return perr("close", h.Path, ErrClosed)
	}
	f := h.w.op("close", h.w.Abs(h.Path))
	h.closed = true
	h.w.OpenFiles--
	if e := f.err(); e != nil {
		// a failing close means delayed writes may have been lost
		if h.flag&(OWronly|ORdwr) != 0 && len(h.node.Data) > 0 {
			k := f.Bytes
			if k < len(h.node.Data) {
				h.node.Data = h.node.Data[:k]
			}
		}
		return perr("close", h.Path, e)
	}
	return nil
}

func (h *Handle) Sync() error {
	if h.mute || simrt.Dead() {
		return nil
	}
	if h.closed {
		return perr("sync", h.Path, ErrClosed)
	}
	f := h.w.op("sync", h.w.Abs(h.Path))
	if e := f.err(); e != nil {
		return perr("sync", h.Path, e)
	}
	h.node.Durable = append([]byte(nil), h.node.Data...)
	h.node.NewName = false
	return nil
}

func (h *Handle) Truncate(n int64) error {
	if h.mute || simrt.Dead() {
		return nil
	}
	for int64(len(h.node.Data)) < n {
		h.node.Data = append(h.node.Data, 0)
	}
	h.node.Data = h.node.Data[:n]
	h.w.Touched[h.w.Abs(h.Path)] = true
	return nil
}

func (h *Handle) Node() *Inode { return h.node }
func (h *Handle) Mute() bool   { return h.mute }

func (w *World) Mkdir(name string, perm fs.FileMode) error {
	if simrt.Dead() {
		return nil
	}
	a := w.Abs(name)
	if f := w.op("mkdir", a); f.err() != nil {
		return perr("mkdir", name, f.err())
	}
	if w.Files[a] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d := w.Files[path.Dir(a)]
	if d == nil {
		return perr("mkdir", name, syscall.ENOENT)
	}
	if !d.Dir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	w.Files[a] = &Inode{Dir: true, Mode: fs.ModeDir | perm, NewName: true}
	return nil
}

func (w *World) MkdirAll(name string, perm fs.FileMode) error {
	if simrt.Dead() {
		return nil
	}
	a := w.Abs(name)
	if n := w.Files[a]; n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(a); w.Files[d] == nil {
		if err := w.MkdirAll(d, perm); err != nil {
			return err
		}
	}
	return w.Mkdir(a, perm)
}

func (w *World) Remove(name string) error {
	if simrt.Dead() {
		return nil
	}
	a := w.Abs(name)
	if f := w.op("remove", a); f.err() != nil {
		return perr("remove", name, f.err())
	}
	n := w.Files[a]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir && w.hasChildren(a) {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	delete(w.Files, a)
	w.Touched[a] = true
	return nil
}

func (w *World) RemoveAll(name string) error {
	if simrt.Dead() {
		return nil
	}
	a := w.Abs(name)
	if f := w.op("remove", a); f.err() != nil {
		return perr("removeall", name, f.err())
	}
	for p := range w.Files {
		if p == a || strings.HasPrefix(p, a+"/") {
			delete(w.Files, p)
			w.Touched[p] = true
		}
	}
	return nil
}

func (w *World) Rename(from, to string) error {
	if simrt.Dead() {
		return nil
	}
	a, b := w.Abs(from), w.Abs(to)
	if f := w.op("rename", b); f.err() != nil {
		return &LinkError{"rename", from, to, f.err()}
	}
	n := w.Files[a]
	if n == nil {
		return &LinkError{"rename", from, to, syscall.ENOENT}
	}
	if n.Dir || w.Files[b] != nil && w.Files[b].Dir {
		return &LinkError{"rename", from, to, syscall.EEXIST}
	}
	if d := w.Files[path.Dir(b)]; d == nil || !d.Dir {
		return &LinkError{"rename", from, to, syscall.ENOENT}
	}
	delete(w.Files, a)
	w.Files[b] = n
	w.Touched[a], w.Touched[b] = true, true
	return nil
}

type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

func (w *World) Stat(name string) (*Inode, error) {
	if simrt.Dead() {
		return &Inode{}, nil
	}
	a := w.Abs(name)
	if f := w.op("stat", a); f.err() != nil {
		return nil, perr("stat", name, f.err())
	}
	n := w.Files[a]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return n, nil
}

func (w *World) List(name string) ([]string, error) {
	a := w.Abs(name)
	n := w.Files[a]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []string
	for p := range w.Files {
		if p != a && path.Dir(p) == a {
			out = append(out, path.Base(p))
		}
	}
	sort.Strings(out)
	return out, nil
}

var _ = errors.Is
