// Package os is the simulated os package of the instrumented build. Everything not defined here is forwarded to the
// real package by a generated file.
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path/filepath"
	"syscall"
	"time"

	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

// File is an open simulated file (or a wrapped real one outside of simulations).
type File struct {
	h    *sim.Handle
	r    *real.File
	w    func([]byte) (int, error) // a standard stream of a simulated process
	gone bool                      // w is closed
	name string

	dirPos  int
	list    []DirEntry
	listErr error
}

var errInactive = errors.New("verifsim: file system modified outside of a simulation")

func wrap(h *sim.Handle, name string, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{h: h, name: name}, nil
}

// Stream makes a standard stream of a simulated process.
func Stream(name string, w func([]byte) (int, error)) *File { return &File{w: w, name: name} }

// Args is the command line.
var Args = append([]string(nil), real.Args...)

// ExitHook decides what ends with os.Exit in a simulation; it returns false if nothing may.
var ExitHook func(code int) bool

var (
	Stdin  = &File{r: real.Stdin, name: "/dev/stdin"}
	Stdout = &File{r: real.Stdout, name: "/dev/stdout"}
	Stderr = &File{r: real.Stderr, name: "/dev/stderr"}
)

func Open(name string) (*File, error) {
	if !sim.Active() {
		f, err := real.Open(name)
		if err != nil {
			return nil, err
		}
		return &File{r: f, name: name}, nil
	}
	h, err := sim.Current().FS.Open(name)
	return wrap(h, name, err)
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if !sim.Active() {
		return nil, errInactive
	}
	op := "open"
	if flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
		op = "create"
	}
	h, err := sim.Current().FS.OpenFile(op, name, flag, perm)
	return wrap(h, name, err)
}

func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, real.ErrInvalid
	}
	if f.w != nil {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EBADF}
	}
	if f.r != nil {
		return f.r.Read(p)
	}
	return f.h.Read(p)
}

func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, real.ErrInvalid
	}
	if f.w != nil {
		if f.gone {
			return 0, &fs.PathError{Op: "write", Path: f.name, Err: real.ErrClosed}
		}
		n, err := f.w(p)
		if err != nil {
			err = &fs.PathError{Op: "write", Path: f.name, Err: err}
		}
		return n, err
	}
	if f.r != nil {
		return f.r.Write(p)
	}
	return f.h.Write(p)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Close() error {
	if f == nil {
		return real.ErrInvalid
	}
	if f.w != nil {
		if f.gone {
			return &fs.PathError{Op: "close", Path: f.name, Err: real.ErrClosed}
		}
		f.gone = true
		return nil
	}
	if f.r != nil {
		return f.r.Close()
	}
	return f.h.Close()
}
func (f *File) Sync() error {
	if f.w != nil {
		return &fs.PathError{Op: "sync", Path: f.name, Err: syscall.EINVAL} // a pipe or terminal
	}
	if f.r != nil {
		return f.r.Sync()
	}
	return f.h.Sync()
}
func (f *File) Stat() (FileInfo, error) {
	if f.w != nil {
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: syscall.EOVERFLOW}
	}
	if f.r != nil {
		return f.r.Stat()
	}
	return f.h.Stat()
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.w != nil {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
	}
	if f.r != nil {
		return f.r.Seek(off, whence)
	}
	return f.h.Seek(off, whence)
}
func (f *File) Truncate(n int64) error {
	if f.w != nil {
		return &fs.PathError{Op: "truncate", Path: f.name, Err: syscall.EINVAL}
	}
	if f.r != nil {
		return errInactive
	}
	return f.h.Truncate(n)
}
func (f *File) Chmod(FileMode) error            { return nil }
func (f *File) Chown(int, int) error            { return nil }
func (f *File) Chdir() error                    { return unsupported("File.Chdir") }
func (f *File) SetDeadline(time.Time) error     { return real.ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error { return real.ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error {
	return real.ErrNoDeadline
}
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, unsupported("File.SyscallConn") }

// ReadAt reads at an offset, leaving the position alone.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if f.w != nil {
		return 0, syscall.ESPIPE
	}
	if f.r != nil {
		return f.r.ReadAt(p, off)
	}
	old, err := f.h.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	defer f.h.Seek(old, io.SeekStart)
	if _, err := f.h.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	n := 0
	for n < len(p) {
		k, err := f.h.Read(p[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

// WriteAt writes at an offset, leaving the position alone.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if f.w != nil {
		return 0, syscall.ESPIPE
	}
	if f.r != nil {
		return 0, errInactive
	}
	old, err := f.h.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	defer f.h.Seek(old, io.SeekStart)
	if _, err := f.h.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	return f.h.Write(p)
}

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, onlyReader{r}) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(onlyWriter{w}, onlyReader{f}) }

// ReadDir lists the directory: everything for n <= 0, otherwise the next n entries.
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f.w != nil {
		return nil, syscall.ENOTDIR
	}
	if f.r != nil {
		return f.r.ReadDir(n)
	}
	if n <= 0 {
		l, err := f.h.FS.ReadDir(f.name)
		k := f.dirPos
		if k > len(l) {
			k = len(l)
		}
		f.dirPos = len(l)
		return l[k:], err
	}
	if f.list == nil {
		l, err := f.h.FS.ReadDir(f.name)
		f.list, f.listErr = append([]DirEntry{}, l...), err
	}
	l := f.list[f.dirPos:]
	if len(l) == 0 {
		if f.listErr != nil {
			return nil, f.listErr
		}
		return nil, io.EOF
	}
	if len(l) > n {
		l = l[:n]
	}
	f.dirPos += len(l)
	return l, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return out, err
		}
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func ReadFile(name string) ([]byte, error) {
	if !sim.Active() {
		return real.ReadFile(name)
	}
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	if !sim.Active() {
		return nil, errInactive
	}
	if dir == "" {
		dir = "/tmp"
	}
	return OpenFile(sim.Current().FS.TempName(dir, pattern), real.O_RDWR|real.O_CREATE|real.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if !sim.Active() {
		return "", errInactive
	}
	if dir == "" {
		dir = "/tmp"
	}
	n := sim.Current().FS.TempName(dir, pattern)
	return n, MkdirAll(n, 0o700)
}

func Mkdir(name string, perm FileMode) error {
	if !sim.Active() {
		return errInactive
	}
	return sim.Current().FS.MkdirAll(name, false)
}

func MkdirAll(name string, perm FileMode) error {
	if !sim.Active() {
		return errInactive
	}
	return sim.Current().FS.MkdirAll(name, true)
}

func Remove(name string) error {
	if !sim.Active() {
		return errInactive
	}
	return sim.Current().FS.Remove(name)
}

func RemoveAll(name string) error {
	if !sim.Active() {
		return errInactive
	}
	return sim.Current().FS.RemoveAll(name)
}

func Rename(a, b string) error {
	if !sim.Active() {
		return errInactive
	}
	return sim.Current().FS.Rename(a, b)
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, real.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

func Stat(name string) (FileInfo, error) {
	if !sim.Active() {
		return real.Stat(name)
	}
	return sim.Current().FS.Stat(name)
}

func Lstat(name string) (FileInfo, error) {
	if !sim.Active() {
		return real.Lstat(name)
	}
	return sim.Current().FS.Lstat(name)
}

func ReadDir(name string) ([]DirEntry, error) {
	if !sim.Active() {
		return real.ReadDir(name)
	}
	return sim.Current().FS.ReadDir(name)
}

func Getwd() (string, error) {
	if !sim.Active() {
		return real.Getwd()
	}
	fs := sim.Current().FS
	if fs.Hook != nil {
		if flt := fs.Hook("getwd", "", nil); flt.Err != nil {
			return "", flt.Err
		}
	}
	return fs.Cwd, nil
}

func unsupported(n string) error {
	if sim.Active() {
		sim.Current().Abort("os." + n + " is not simulated")
	}
	return errInactive
}

func Chmod(string, FileMode) error  { return nil }
func Chown(string, int, int) error  { return unsupported("Chown") }
func Lchown(string, int, int) error { return unsupported("Lchown") }
func Chdir(string) error            { return unsupported("Chdir") }
func Symlink(string, string) error  { return unsupported("Symlink") }
func Link(string, string) error     { return unsupported("Link") }
func Readlink(name string) (string, error) {
	if !sim.Active() {
		return real.Readlink(name)
	}
	return sim.Current().FS.Readlink(name)
}
func Chtimes(string, time.Time, time.Time) error { return nil }
func CopyFS(string, fs.FS) error                 { return unsupported("CopyFS") }
func OpenRoot(string) (*real.Root, error)        { return nil, unsupported("OpenRoot") }
func OpenInRoot(string, string) (*File, error)   { return nil, unsupported("OpenInRoot") }
func NewFile(uintptr, string) *File              { _ = unsupported("NewFile"); return nil }
func Pipe() (*File, *File, error)                { return nil, nil, unsupported("Pipe") }
func SameFile(a, b FileInfo) bool {
	if sim.Active() {
		return sim.SameFile(a, b)
	}
	return real.SameFile(a, b)
}

type dirFS string

func (d dirFS) path(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", &fs.PathError{Op: op, Path: name, Err: fs.ErrInvalid}
	}
	return string(d) + "/" + name, nil
}
func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}
func (d dirFS) ReadDir(name string) ([]DirEntry, error) {
	p, err := d.path("open", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}
func (d dirFS) Stat(name string) (FileInfo, error) {
	p, err := d.path("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}

// DirFS is the simulated file system below dir.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func Exit(code int) {
	if sim.Active() {
		if ExitHook != nil && ExitHook(code) {
			return
		}
		panic("os.Exit called by the library")
	}
	real.Exit(code)
}

func TempDir() string { return "/tmp" }

var _ = filepath.Clean
