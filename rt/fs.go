package verifsim

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// FS is the simulated file system (sorted slice, not a map: see chans.go).
type FS struct {
	s       *Sched
	Cwd     string
	ents    []*Ent
	Handles []*Handle
	Ops     []FSOp
	OpenNow int
	MaxOpen int
	tmpN    int

	// Hook decides about faults: called before each operation. A nil hook means a healthy file system.
	Hook func(op, path string, h *Handle) Fault
	// OnOpen lets the scenario choose how a handle opened for reading delivers its data.
	OnOpen func(h *Handle)
	// Misuse collects handle misuse (read after close, double close).
	Misuse []string
	// AfterSeal counts operations after Seal was called (e.g. after Parse returned).
	Sealed      bool
	SealedTag   int
	AfterSeal   []string
	ShuffleGlob bool
	globs       [64]sharedNames // (no map: the race detector sees map accesses in this package, too)
	nglobs      int
}

// Ent is one file or directory.
type Ent struct {
	Path string
	Data []byte
	Dir  bool
	Mode fs.FileMode
	Gen  int    // bumped at every change
	Link string // absolute target of a symbolic link
}

// FSOp is one recorded operation.
type FSOp struct {
	Op, Path string
	Tag      int
	Failed   bool
}

// Fault is the decision about one operation.
type Fault struct {
	Err        error
	N          int  // for writes: bytes that still reach the file before the error or crash
	Crash      bool // the process dies here
	CrashAfter bool // the process dies right after the operation
}

// Handle is an open file.
type Handle struct {
	FS         *FS
	Path       string
	ID         int
	Tag        int
	ent        *Ent
	pos        int
	write      bool
	appendMode bool
	closed     bool
	Closes     int
	Reads      int
	D          Delivery
	snap       []byte // content as of open, for readers
	dirPos     int
}

// Delivery decides how a reader hands out bytes.
type Delivery struct {
	Mode     int // 0 whole, 1 single bytes, 2 1..3, 3 1..64, 4 1..5000, 5 mixture with empty reads
	FailAt   int // -1: never; otherwise the offset at which Err is returned
	Err      error
	WithData bool  // deliver the last bytes together with Err / EOF
	EOFAt    int   // -1: at the end; otherwise truncated there
	Latency  int   // 0: none; otherwise upper bound of virtual ms per read
	StallAt  []int // offsets at which the reader blocks until Release
	stalled  int
	Q        WaitQ
	zeros    int
	pos      int
	BytesOut int
	InRead   int // goroutine id currently inside Read, +1
	Released bool
}

var ErrClosedHandle = errors.New("file already closed")

func newFS(s *Sched) *FS {
	f := &FS{s: s, Cwd: "/w"}
	f.mkdir("/")
	f.mkdir("/w")
	return f
}

func (f *FS) Abs(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(f.Cwd, p)
	}
	return filepath.Clean(p)
}

func (f *FS) find(p string) (int, *Ent) {
	i := sort.Search(len(f.ents), func(i int) bool { return f.ents[i].Path >= p })
	if i < len(f.ents) && f.ents[i].Path == p {
		return i, f.ents[i]
	}
	return i, nil
}

// resolve follows symbolic links (also of the last element) and gives the path and the entry there, if any.
func (f *FS) resolve(p string) (string, *Ent) {
	for hops := 0; hops < 40; hops++ {
		again := false
		for _, e := range f.ents {
			if e.Link != "" && (p == e.Path || strings.HasPrefix(p, e.Path+"/")) {
				p = filepath.Clean(e.Link + p[len(e.Path):])
				again = true
				break
			}
		}
		if !again {
			_, e := f.find(p)
			return p, e
		}
	}
	return p, nil
}

// PutLink creates a symbolic link (scenario set-up).
func (f *FS) PutLink(p, target string) {
	p = f.Abs(p)
	f.Put(p, "")
	_, e := f.find(p)
	e.Link, e.Data, e.Mode = f.Abs(target), nil, fs.ModeSymlink|0o777
}

// EvalSymlinks gives the path a name leads to.
func (f *FS) EvalSymlinks(name string) (string, error) {
	p := f.Abs(name)
	flt, _ := f.enter("lstat", p, nil)
	if flt.Err != nil {
		return "", flt.Err
	}
	t, e := f.resolve(p)
	if e == nil {
		return "", perr("lstat", name, syscall.ENOENT)
	}
	if t == p {
		return filepath.Clean(name), nil
	}
	if !filepath.IsAbs(name) && strings.HasPrefix(t, f.Cwd+"/") {
		t = t[len(f.Cwd)+1:]
	}
	return t, nil
}

// Readlink reads a link.
func (f *FS) Readlink(name string) (string, error) {
	p := f.Abs(name)
	flt, _ := f.enter("readlink", p, nil)
	if flt.Err != nil {
		return "", flt.Err
	}
	_, e := f.find(f.place(p))
	if e == nil {
		return "", perr("readlink", name, syscall.ENOENT)
	}
	if e.Link == "" {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return e.Link, nil
}

// own copies a name without the race detector seeing it: the disk is shared, the callers' strings are not.
func own(s string) string {
	b := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = s[i]
	}
	return *(*string)(unsafe.Pointer(&b))
}

func (f *FS) insert(e *Ent) {
	e.Path = own(e.Path)
	i, old := f.find(e.Path)
	if old != nil {
		f.ents[i] = e
		return
	}
	f.ents = append(f.ents, nil)
	for k := len(f.ents) - 1; k > i; k-- { // no copy: it is visible to the race detector
		f.ents[k] = f.ents[k-1]
	}
	f.ents[i] = e
}

// drop takes the i-th entry out (no copy, as in insert).
func (f *FS) drop(i int) {
	for ; i+1 < len(f.ents); i++ {
		f.ents[i] = f.ents[i+1]
	}
	f.ents[i] = nil
	f.ents = f.ents[:i]
}

// place gives the path of a name with the links in its directory, but not its last element, resolved.
func (f *FS) place(p string) string {
	if p == "/" {
		return p
	}
	d, _ := f.resolve(filepath.Dir(p))
	return filepath.Join(d, filepath.Base(p))
}

func (f *FS) mkdir(p string) {
	if _, e := f.find(p); e == nil {
		f.insert(&Ent{Path: p, Dir: true, Mode: fs.ModeDir | 0o777})
	}
}

// Put creates or replaces a file without going through the fault machinery (scenario set-up).
func (f *FS) Put(p string, data string) {
	p, _ = f.resolve(f.Abs(p))
	for d := filepath.Dir(p); ; d = filepath.Dir(d) {
		f.mkdir(d)
		if d == "/" || d == "." {
			break
		}
	}
	f.insert(&Ent{Path: p, Data: []byte(data), Mode: 0o644})
}

// PutDir creates a directory (scenario set-up).
func (f *FS) PutDir(p string) {
	f.Put(filepath.Join(p, "x"), "")
	f.Del(filepath.Join(p, "x"))
}

// Del removes an entry (scenario set-up).
func (f *FS) Del(p string) {
	p = f.Abs(p)
	d, _ := f.resolve(filepath.Dir(p))
	i, e := f.find(filepath.Join(d, filepath.Base(p)))
	if e != nil {
		f.drop(i)
	}
}

// Get returns a file's content.
func (f *FS) Get(p string) (string, bool) {
	_, e := f.resolve(f.Abs(p))
	if e == nil || e.Dir {
		return "", false
	}
	return string(e.Data), true
}

// Snapshot lists all files (dirs with a trailing slash and no data).
func (f *FS) Snapshot() (paths []string, data []string) {
	for _, e := range f.ents {
		if e.Dir {
			paths = append(paths, e.Path+"/")
			data = append(data, "")
			continue
		}
		paths = append(paths, e.Path)
		data = append(data, string(e.Data))
	}
	return
}

func (f *FS) enter(op, path string, h *Handle) (Fault, bool) {
	if Killed() {
		return Fault{Err: ErrClosedHandle}, true
	}
	f.s.point(op)
	if Killed() {
		return Fault{Err: ErrClosedHandle}, true
	}
	if f.Sealed && f.s.cur.Tag == f.SealedTag {
		f.AfterSeal = append(f.AfterSeal, op+" "+path)
	}
	var flt Fault
	if f.Hook != nil {
		flt = f.Hook(op, path, h)
	}
	f.Ops = append(f.Ops, FSOp{op, path, f.s.cur.Tag, flt.Err != nil})
	f.s.Log(op, path, btoi(flt.Err != nil), btoi(flt.Crash))
	if flt.Crash && op != "write" {
		f.s.Count("crash@" + op)
		CrashTag(f.s.cur.Tag)
	}
	return flt, false
}

func (f *FS) leave(flt Fault) {
	if flt.CrashAfter && !Killed() {
		f.s.Count("crash-after-op")
		CrashTag(f.s.cur.Tag)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// OpenFile opens a file; flags as in package os.
func (f *FS) OpenFile(op, name string, flag int, perm fs.FileMode) (*Handle, error) {
	p := f.Abs(name)
	flt, killed := f.enter(op, p, nil)
	if killed {
		return nil, flt.Err
	}
	if flt.Err != nil {
		return nil, flt.Err
	}
	at, e := f.resolve(p)
	w := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if e == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if _, d := f.find(filepath.Dir(at)); d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		} else if !d.Dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		e = &Ent{Path: at, Mode: perm}
		f.insert(e)
	} else {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if e.Dir && w {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&syscall.O_TRUNC != 0 && w {
			e.Data = nil
			e.Gen++
		}
	}
	h := &Handle{FS: f, Path: p, ID: len(f.Handles), Tag: f.s.cur.Tag, ent: e, write: w, appendMode: flag&syscall.O_APPEND != 0}
	h.D = Delivery{FailAt: -1, EOFAt: -1}
	if !w {
		h.snap = append([]byte(nil), e.Data...)
	}
	f.Handles = append(f.Handles, h)
	f.OpenNow++
	if f.OpenNow > f.MaxOpen {
		f.MaxOpen = f.OpenNow
	}
	if !w && !e.Dir && f.OnOpen != nil {
		f.OnOpen(h)
	}
	f.leave(flt)
	return h, nil
}

// Open opens a file for reading.
func (f *FS) Open(name string) (*Handle, error) { return f.OpenFile("open", name, 0, 0) }

// Read reads from the handle.
func (h *Handle) Read(p []byte) (int, error) {
	f := h.FS
	if Killed() {
		return 0, ErrClosedHandle
	}
	f.s.point("read")
	if Killed() {
		return 0, ErrClosedHandle
	}
	h.Reads++
	if f.Sealed && f.s.cur.Tag == f.SealedTag {
		f.AfterSeal = append(f.AfterSeal, "read "+h.Path)
	}
	if h.closed {
		f.Misuse = append(f.Misuse, "read after close: "+h.Path)
		f.s.Log("read-after-close", h.Path, 0, 0)
		return 0, perr("read", h.Path, fs.ErrClosed)
	}
	if h.ent.Dir {
		return 0, perr("read", h.Path, syscall.EISDIR)
	}
	data := h.snap
	if h.write {
		data = h.ent.Data
	}
	return h.D.Read(f.s, h.Path, data, p)
}

// Read hands out the next bytes of data.
func (d *Delivery) Read(s *Sched, name string, data []byte, p []byte) (int, error) {
	if d.InRead != 0 {
		s.FS.Misuse = append(s.FS.Misuse, "two goroutines inside Read of "+name)
	}
	d.InRead = s.cur.ID + 1
	n, err := d.read(s, name, data, p)
	d.InRead = 0
	e := 0
	if err == io.EOF {
		e = 1
	} else if err != nil {
		e = 2
		s.Count("read-error")
	}
	s.Log("read", name, n, e)
	return n, err
}

func (d *Delivery) read(s *Sched, name string, data []byte, p []byte) (int, error) {
	if d.Latency > 0 {
		if ms := s.Src.Env(d.Latency+1, nil); ms > 0 {
			s.Count("read-latency")
			Sleep(time.Duration(ms) * time.Millisecond)
			if Killed() {
				return 0, ErrClosedHandle
			}
		}
	}
	end := len(data)
	var errAt error = io.EOF
	if d.EOFAt >= 0 && d.EOFAt < end {
		end = d.EOFAt
		if d.pos < end && false {
			_ = name
		}
	}
	if d.FailAt >= 0 && d.FailAt <= end {
		end = d.FailAt
		errAt = d.Err
	}
	lim := end
	for d.stalled < len(d.StallAt) {
		at := d.StallAt[d.stalled]
		if at > end {
			break
		}
		if d.pos < at {
			lim = at
			break
		}
		// blocked at this offset until released
		s.Count("read-stall")
		d.Released = false
		for !d.Released {
			d.Q.Wait("source stalls at offset")
			if Killed() {
				return 0, ErrClosedHandle
			}
		}
		d.stalled++
	}
	if len(p) == 0 {
		return 0, nil
	}
	if d.pos >= end {
		return 0, errAt
	}
	n := lim - d.pos
	if n > len(p) {
		n = len(p)
	}
	if d.Mode != 0 {
		v := s.Src.Env(n+1, func(r *Rand) int {
			switch d.Mode {
			case 1:
				return 1
			case 2:
				return 1 + r.Intn(3)
			case 3:
				return 1 + r.Intn(64)
			case 4:
				return 1 + r.Intn(5000)
			default:
				switch r.Intn(4) {
				case 0:
					return 0
				case 1:
					return 1
				case 2:
					return 1 + r.Intn(16)
				}
				return 1 + r.Intn(1000)
			}
		})
		if v > 0 && v < n {
			n = v
			s.Count("short-read")
		}
		if d.Mode == 5 && d.zeros < 3 {
			if s.Src.Env(2, func(r *Rand) int { return btoi(r.Intn(6) == 0) }) == 1 {
				d.zeros++
				s.Count("empty-read")
				return 0, nil
			}
		}
		d.zeros = 0
	}
	copy(p, data[d.pos:d.pos+n])
	d.pos += n
	d.BytesOut += n
	if d.pos == end && d.WithData {
		if errAt == io.EOF {
			s.Count("eof-with-data")
		}
		return n, errAt
	}
	return n, nil
}

// Release ends the current stall.
func (d *Delivery) Release() { d.Released = true; d.Q.WakeAll() }

// Stalled tells whether somebody is blocked in Read.
func (d *Delivery) Stalled() bool { return d.Q.Len() > 0 }

// Pos is the number of bytes delivered.
func (d *Delivery) Pos() int { return d.pos }

// Write writes to the handle.
func (h *Handle) Write(p []byte) (int, error) {
	f := h.FS
	flt, killed := f.enter("write", h.Path, h)
	if killed {
		return 0, flt.Err
	}
	if h.closed {
		f.Misuse = append(f.Misuse, "write after close: "+h.Path)
		return 0, perr("write", h.Path, fs.ErrClosed)
	}
	if !h.write {
		return 0, perr("write", h.Path, syscall.EBADF)
	}
	n := len(p)
	if flt.Err != nil || flt.Crash {
		n = flt.N
		if n > len(p) {
			n = len(p)
		}
		if n < 0 {
			n = 0
		}
	}
	if h.appendMode {
		h.pos = len(h.ent.Data)
	}
	nd := append([]byte(nil), h.ent.Data...)
	for len(nd) < h.pos {
		nd = append(nd, 0)
	}
	nd = append(nd[:h.pos], append(append([]byte(nil), p[:n]...), tail(nd, h.pos+n)...)...)
	h.ent.Data = nd
	h.ent.Gen++
	h.pos += n
	if flt.Crash {
		f.s.Count("crash@write")
		CrashTag(f.s.cur.Tag)
	}
	if flt.Err != nil {
		return n, flt.Err
	}
	f.leave(flt)
	return n, nil
}

func tail(b []byte, i int) []byte {
	if i >= len(b) {
		return nil
	}
	return append([]byte(nil), b[i:]...)
}

// Seek repositions the handle.
func (h *Handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += int64(h.pos)
	case 2:
		off += int64(len(h.ent.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.Path, syscall.EINVAL)
	}
	h.pos = int(off)
	h.D.pos = int(off)
	return off, nil
}

// Truncate cuts the file.
func (h *Handle) Truncate(n int64) error {
	flt, killed := h.FS.enter("truncate", h.Path, h)
	if killed || flt.Err != nil {
		return flt.Err
	}
	d := h.ent.Data
	for int64(len(d)) < n {
		d = append(d, 0)
	}
	h.ent.Data = append([]byte(nil), d[:n]...)
	h.FS.leave(flt)
	return nil
}

// Sync flushes.
func (h *Handle) Sync() error {
	flt, _ := h.FS.enter("sync", h.Path, h)
	return flt.Err
}

// Stat describes the open file.
func (h *Handle) Stat() (fs.FileInfo, error) {
	if h.closed {
		return nil, perr("stat", h.Path, fs.ErrClosed)
	}
	return info(h.ent), nil
}

// Close closes the handle.
func (h *Handle) Close() error {
	f := h.FS
	flt, killed := f.enter("close", h.Path, h)
	if killed {
		return flt.Err
	}
	h.Closes++
	if h.closed {
		f.Misuse = append(f.Misuse, "closed twice: "+h.Path)
		return perr("close", h.Path, fs.ErrClosed)
	}
	if h.D.InRead != 0 && h.D.InRead != f.s.cur.ID+1 {
		f.Misuse = append(f.Misuse, "closed while being read: "+h.Path)
	}
	h.closed = true
	f.OpenNow--
	if flt.Err != nil {
		return flt.Err
	}
	f.leave(flt)
	return nil
}

// IsClosed tells whether Close was called.
func (h *Handle) IsClosed() bool { return h.closed }

// IsWrite tells whether the handle was opened for writing.
func (h *Handle) IsWrite() bool { return h.write }

type finfo struct{ e Ent }

func info(e *Ent) fs.FileInfo { return &finfo{*e} }

func (i *finfo) Name() string { return filepath.Base(i.e.Path) }
func (i *finfo) Size() int64  { return int64(len(i.e.Data)) }
func (i *finfo) Mode() fs.FileMode {
	if i.e.Dir {
		return i.e.Mode | fs.ModeDir
	}
	return i.e.Mode
}
func (i *finfo) ModTime() time.Time         { return time.Unix(1700000000, 0) }
func (i *finfo) IsDir() bool                { return i.e.Dir }
func (i *finfo) Sys() interface{}           { return nil }
func (i *finfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i *finfo) Info() (fs.FileInfo, error) { return i, nil }

// SameFile tells whether two descriptions are of the same path.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok && ok2 && x.e.Path == y.e.Path
}

// Stat describes a path.
func (f *FS) Stat(name string) (fs.FileInfo, error) {
	p := f.Abs(name)
	flt, _ := f.enter("stat", p, nil)
	if flt.Err != nil {
		return nil, flt.Err
	}
	_, e := f.resolve(p)
	if e == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info(e), nil
}

// Lstat describes a path without following it.
func (f *FS) Lstat(name string) (fs.FileInfo, error) {
	p := f.Abs(name)
	flt, _ := f.enter("lstat", p, nil)
	if flt.Err != nil {
		return nil, flt.Err
	}
	d, _ := f.resolve(filepath.Dir(p))
	_, e := f.find(filepath.Join(d, filepath.Base(p)))
	if e == nil {
		return nil, perr("lstat", name, syscall.ENOENT)
	}
	return info(e), nil
}

// MkdirAll creates directories.
func (f *FS) MkdirAll(name string, all bool) error {
	p := f.Abs(name)
	flt, _ := f.enter("mkdir", p, nil)
	if flt.Err != nil {
		return flt.Err
	}
	p, e := f.resolve(p)
	if e != nil {
		if !all {
			return perr("mkdir", name, syscall.EEXIST)
		}
		if !e.Dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		return nil
	}
	if !all {
		if _, e := f.find(filepath.Dir(p)); e == nil {
			return perr("mkdir", name, syscall.ENOENT)
		}
		f.mkdir(p)
		return nil
	}
	var todo []string
	for d := p; ; d = filepath.Dir(d) {
		if _, e := f.find(d); e != nil {
			if !e.Dir {
				return perr("mkdir", name, syscall.ENOTDIR)
			}
			break
		}
		todo = append(todo, d)
	}
	for i := len(todo) - 1; i >= 0; i-- {
		f.mkdir(todo[i])
	}
	f.leave(flt)
	return nil
}

// Remove removes a file or empty directory.
func (f *FS) Remove(name string) error {
	p := f.Abs(name)
	flt, _ := f.enter("remove", p, nil)
	if flt.Err != nil {
		return flt.Err
	}
	p = f.place(p)
	i, e := f.find(p)
	if e == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if e.Dir {
		for _, x := range f.ents {
			if strings.HasPrefix(x.Path, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	f.drop(i)
	f.leave(flt)
	return nil
}

// RemoveAll removes a tree.
func (f *FS) RemoveAll(name string) error {
	p := f.Abs(name)
	flt, _ := f.enter("removeall", p, nil)
	if flt.Err != nil {
		return flt.Err
	}
	p = f.place(p)
	var out []*Ent
	for _, x := range f.ents {
		if x.Path != p && !strings.HasPrefix(x.Path, p+"/") {
			out = append(out, x)
		}
	}
	f.ents = out
	return nil
}

// Rename renames a file.
func (f *FS) Rename(from, to string) error {
	a, b := f.Abs(from), f.Abs(to)
	flt, _ := f.enter("rename", b, nil)
	if flt.Err != nil {
		return flt.Err
	}
	a, b = f.place(a), f.place(b)
	i, e := f.find(a)
	if e == nil {
		return perr("rename", from, syscall.ENOENT)
	}
	if _, d := f.find(filepath.Dir(b)); d == nil {
		return perr("rename", to, syscall.ENOENT)
	}
	if _, t := f.find(b); t != nil && t != e {
		if t.Dir && !e.Dir {
			return perr("rename", to, syscall.EISDIR)
		}
		if e.Dir && !t.Dir {
			return perr("rename", to, syscall.ENOTDIR)
		}
	}
	f.drop(i)
	e.Path = own(b)
	e.Gen++
	f.insert(e)
	if e.Dir { // what is below moves along
		var below []*Ent
		for _, x := range f.ents {
			if strings.HasPrefix(x.Path, a+"/") {
				below = append(below, x)
			}
		}
		for _, x := range below {
			k, _ := f.find(x.Path)
			f.drop(k)
			x.Path = own(b + x.Path[len(a):])
			f.insert(x)
		}
	}
	f.leave(flt)
	return nil
}

// ReadDir lists a directory in name order.
func (f *FS) ReadDir(name string) ([]fs.DirEntry, error) {
	p := f.Abs(name)
	flt, _ := f.enter("readdir", p, nil)
	if flt.Err != nil {
		if flt.N > 0 { // what was read before the error
			l, _ := f.list(p, name)
			if len(l) > flt.N {
				l = l[:flt.N]
			}
			return l, flt.Err
		}
		return nil, flt.Err
	}
	return f.list(p, name)
}

func (f *FS) list(p, name string) ([]fs.DirEntry, error) {
	p, e := f.resolve(p)
	if e == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !e.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []fs.DirEntry
	for _, x := range f.ents {
		if x.Path != "/" && filepath.Dir(x.Path) == p && x.Path != p {
			out = append(out, &finfo{*x})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

// TempName makes a fresh name.
func (f *FS) TempName(dir, pattern string) string {
	f.tmpN++
	n := "verifsim" + itoa(f.tmpN)
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		return filepath.Join(dir, pattern[:i]+n+pattern[i+1:])
	}
	return filepath.Join(dir, pattern+n)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

// GlobMatch lists the paths matching pattern, in name order, as filepath.Glob would.
func (f *FS) GlobMatch(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	var out []string
	rel := !filepath.IsAbs(pattern)
	var names []string
	for _, e := range f.ents {
		if e.Path == "/" {
			continue
		}
		names = append(names, e.Path)
		for _, l := range f.ents { // the names below a link to a directory
			if l.Link != "" && strings.HasPrefix(e.Path, l.Link+"/") {
				names = append(names, l.Path+e.Path[len(l.Link):])
			}
		}
	}
	sort.Strings(names)
	for _, name := range names {
		if rel {
			n, err := filepath.Rel(f.Cwd, name)
			if err != nil || n == "." || strings.HasSuffix(n, "..") {
				continue
			}
			name = n
		}
		if ok, _ := filepath.Match(pattern, name); ok {
			out = append(out, name)
		}
	}
	return out, nil
}

// Glob is GlobMatch with faults and, when enabled, an arbitrary answer order.
func (f *FS) Glob(pattern string) ([]string, error) {
	flt, _ := f.enter("glob", pattern, nil)
	if flt.Err != nil {
		return nil, flt.Err
	}
	out, err := f.GlobMatch(pattern)
	if f.ShuffleGlob {
		permute(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	f.leave(flt)
	return out, err
}

type sharedNames struct {
	pattern string
	set     string
	names   []string // handed out
	want    []string
}

// GlobShared is Glob for a user that keeps the answer to a pattern, and hands out the very same slice again while
// the answer is the same.
func (f *FS) GlobShared(pattern string) ([]string, error) {
	out, err := f.Glob(pattern)
	if err != nil || len(out) == 0 {
		return out, err
	}
	s := append([]string(nil), out...)
	sort.Strings(s)
	set := strings.Join(s, "\x00")
	for i := 0; i < f.nglobs; i++ {
		if m := &f.globs[i]; m.pattern == pattern && m.set == set {
			return m.names, nil
		}
	}
	if f.nglobs < len(f.globs) {
		f.globs[f.nglobs] = sharedNames{pattern, set, out, append([]string(nil), out...)}
		f.nglobs++
	}
	return out, nil
}

// GlobsIntact tells whether the slices handed out by GlobShared are as they were.
func (f *FS) GlobsIntact() bool {
	for _, m := range f.globs[:f.nglobs] {
		if strings.Join(m.names, "\x00") != strings.Join(m.want, "\x00") {
			return false
		}
	}
	return true
}

// WalkDir walks a tree in lexical order, as filepath.WalkDir does.
func (f *FS) WalkDir(root string, fn fs.WalkDirFunc) error {
	flt, _ := f.enter("lstat", f.Abs(root), nil)
	var err error
	_, e := f.find(f.Abs(root))
	switch {
	case flt.Err != nil:
		err = fn(root, nil, flt.Err)
	case e == nil:
		err = fn(root, nil, perr("lstat", root, syscall.ENOENT))
	default:
		err = f.walk(root, &finfo{*e}, fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func (f *FS) walk(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := f.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == fs.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := f.walk(filepath.Join(path, d1.Name()), d1, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
