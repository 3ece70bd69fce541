// Package os replaces the standard package: a simulated machine.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"strings"
	"syscall"
	real "time"

	"uniswap-simulator/zsim/disk"
	"uniswap-simulator/zsim/simrt"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	PathError = fs.PathError
	DirEntry  = fs.DirEntry
	LinkError = disk.LinkError
	Signal    = interface{ String() string }
)

const (
	O_RDONLY = disk.ORdonly
	O_WRONLY = disk.OWronly
	O_RDWR   = disk.ORdwr
	O_APPEND = disk.OAppend
	O_CREATE = disk.OCreate
	O_EXCL   = disk.OExcl
	O_SYNC   = disk.OSync
	O_TRUNC  = disk.OTrunc

	ModePerm   = fs.ModePerm
	ModeDir    = fs.ModeDir
	ModeAppend = fs.ModeAppend

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrDeadlineExceeded = errors.New("i/o timeout")

	Stdin  = &File{std: 1}
	Stdout = &File{std: 2}
	Stderr = &File{std: 3}
)

// Args is set by the simulator for each run.
var Args []string

func under(err error) error {
	switch e := err.(type) {
	case *fs.PathError:
		return e.Err
	case *disk.LinkError:
		return e.Err
	}
	return err
}

func IsNotExist(err error) bool { return errors.Is(under(err), fs.ErrNotExist) }
func IsExist(err error) bool {
	return errors.Is(under(err), fs.ErrExist) || under(err) == syscall.ENOTEMPTY
}
func IsPermission(err error) bool { return errors.Is(under(err), fs.ErrPermission) }
func IsTimeout(err error) bool    { return false }

type File struct {
	h   *disk.Handle
	std int
}

func wrap(h *disk.Handle, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}

func Open(name string) (*File, error) { return wrap(disk.W.Open(name, O_RDONLY, 0)) }
func Create(name string) (*File, error) {
	return wrap(disk.W.Open(name, O_RDWR|O_CREATE|O_TRUNC, 0o666))
}
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return wrap(disk.W.Open(name, flag, perm))
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	return f.h.Read(b)
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std != 0 {
		if !simrt.Dead() && disk.W != nil {
			if f.std == 3 {
				disk.W.Stderr.Write(b)
			} else {
				disk.W.Stdout.Write(b)
			}
		}
		return len(b), nil
	}
	return f.h.Write(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if _, err := f.h.Seek(off, 0); err != nil {
		return 0, err
	}
	return f.h.Write(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if _, err := f.h.Seek(off, 0); err != nil {
		return 0, err
	}
	return io.ReadFull(f.h, b)
}

func (f *File) Seek(off int64, whence int) (int64, error) { return f.h.Seek(off, whence) }

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	return f.h.Close()
}

func (f *File) Sync() error {
	if f.std != 0 {
		return nil
	}
	return f.h.Sync()
}

func (f *File) Truncate(n int64) error { return f.h.Truncate(n) }
func (f *File) Chmod(m FileMode) error { return nil }
func (f *File) Fd() uintptr            { return 3 }
func (f *File) Name() string {
	switch f.std {
	case 1:
		return "/dev/stdin"
	case 2:
		return "/dev/stdout"
	case 3:
		return "/dev/stderr"
	}
	return f.h.Path
}

func (f *File) Stat() (FileInfo, error) {
	if f.std != 0 || f.h.Mute() {
		return info{name: "std", n: &disk.Inode{}}, nil
	}
	return info{path.Base(f.h.Path), f.h.Node()}, nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.h.Path) }

type info struct {
	name string
	n    *disk.Inode
}

func (i info) Name() string            { return i.name }
func (i info) Size() int64             { return int64(len(i.n.Data)) }
func (i info) Mode() FileMode          { return i.n.Mode }
func (i info) ModTime() real.Time      { return real.Unix(1640995200, 0).UTC() }
func (i info) IsDir() bool             { return i.n.Dir }
func (i info) Sys() any                { return nil }
func (i info) Type() FileMode          { return i.n.Mode.Type() }
func (i info) Info() (FileInfo, error) { return i, nil }

func Stat(name string) (FileInfo, error) {
	n, err := disk.W.Stat(name)
	if err != nil {
		return nil, err
	}
	return info{path.Base(name), n}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm FileMode) error    { return disk.W.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error { return disk.W.MkdirAll(name, perm) }
func Remove(name string) error                  { return disk.W.Remove(name) }
func RemoveAll(name string) error               { return disk.W.RemoveAll(name) }
func Rename(a, b string) error                  { return disk.W.Rename(a, b) }
func Chmod(name string, m FileMode) error       { _, err := disk.W.Stat(name); return err }
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func ReadDir(name string) ([]DirEntry, error) {
	l, err := disk.W.List(name)
	if err != nil {
		return nil, err
	}
	var out []DirEntry
	for _, n := range l {
		out = append(out, info{n, disk.W.Files[disk.W.Abs(name+"/"+n)]})
	}
	return out, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

var temp int

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for {
		temp++
		name := pattern + fmt.Sprint(temp)
		if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
			name = pattern[:i] + fmt.Sprint(temp) + pattern[i+1:]
		}
		f, err := OpenFile(dir+"/"+name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if IsExist(err) {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	temp++
	n := dir + "/" + strings.ReplaceAll(pattern, "*", "") + fmt.Sprint(temp)
	return n, Mkdir(n, 0o700)
}

// ResetTemp restarts temporary file numbering for a new run.
func ResetTemp() { temp = 0 }

func TempDir() string                   { return "/tmp" }
func Getwd() (string, error)            { return disk.W.Cwd, nil }
func Chdir(d string) error              { disk.W.Cwd = disk.W.Abs(d); return nil }
func Getenv(k string) string            { return disk.W.Env[k] }
func LookupEnv(k string) (string, bool) { v, ok := disk.W.Env[k]; return v, ok }
func Setenv(k, v string) error          { disk.W.Env[k] = v; return nil }
func Environ() []string                 { return nil }
func Getpid() int                       { return 1 }
func Hostname() (string, error)         { return "sim", nil }
func Executable() (string, error)       { return "/work/main", nil }
func Exit(code int)                     { simrt.Y(); simrt.Exit(code) }
func UserHomeDir() (string, error)      { return "/work", nil }
