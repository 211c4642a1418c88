package simrt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// What processes write to stdout and stderr is dropped, except for debugging.
var logStd = func() io.Writer {
	if os.Getenv("ZZ_LOG") != "" {
		return os.Stderr
	}
	return nil
}()

// In-memory file system with fault injection and a full log of modifications.

type Inode struct {
	dir     bool
	dev     bool // null device
	Data    []byte
	Mode    os.FileMode
	mtime   int64
	nlink   int
	Opens   int // handles currently open for writing
	Writes  int
	ID      int
	Deletes []string // destructive events on data
	Created int64
	ByWorld bool
}

type FSFault struct {
	Path  string `json:"path"`         // substring of the path
	Op    string `json:"op"`           // open, write, seek, close, mkdir, stat, any
	After int    `json:"after"`        // skip this many matching operations
	Count int    `json:"count"`        // how many fail; 0 = all later ones
	Err   string `json:"err"`          // ENOSPC, EIO, EACCES, EMFILE, EROFS, SHORT, SLOW
	Ms    int    `json:"ms,omitempty"` // for SLOW
	seen  int
	Hits  int   `json:"-"`
	Last  int64 `json:"-"` // time of the last one
}

type FSOp struct {
	At   int64
	Op   string
	Path string
	Off  int64
	N    int
	Err  string
	Flag int
	Mode os.FileMode
	Proc int
	Ino  int
}

type FS struct {
	w       *World
	n       map[string]*Inode
	Ops     []FSOp
	Faults  []*FSFault
	ids     int
	Fired   map[string]int
	tmp     int
	OnWrite func(p string, ino *Inode)
	// OnOp is called before every mutating operation; it may kill the process
	OnOp func(op, path string, n int) (kill bool, torn int)
}

func newFS(w *World) *FS {
	f := &FS{w: w, n: map[string]*Inode{}, Fired: map[string]int{}}
	for _, d := range []string{"/", "/dev", "/tmp", "/var", "/var/lib", "/etc", "/proc"} {
		f.ids++
		f.n[d] = &Inode{dir: true, Mode: 0755 | os.ModeDir, ID: f.ids}
	}
	f.ids++
	f.n["/dev/null"] = &Inode{dev: true, Mode: 0666 | os.ModeDevice | os.ModeCharDevice, ID: f.ids}
	return f
}

// ---- world side ----

func (f *FS) MkdirWorld(p string) {
	p = path.Clean(p)
	for q := p; q != "/"; q = path.Dir(q) {
		if f.n[q] == nil {
			f.ids++
			f.n[q] = &Inode{dir: true, Mode: 0700 | os.ModeDir, ID: f.ids}
		}
	}
}
func (f *FS) PutWorld(p string, data []byte) {
	f.MkdirWorld(path.Dir(p))
	f.ids++
	f.n[path.Clean(p)] = &Inode{Data: append([]byte(nil), data...), Mode: 0600, ID: f.ids, ByWorld: true, Created: f.w.now}
}
func (f *FS) RemoveWorld(p string) { delete(f.n, path.Clean(p)) }
func (i *Inode) IsDir() bool       { return i.dir }
func (f *FS) Peek(p string) *Inode { return f.n[path.Clean(p)] }
func (f *FS) List() []string {
	var r []string
	for p, i := range f.n {
		if !i.dir && !i.dev {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}
func (f *FS) Dirs() []string {
	var r []string
	for p, i := range f.n {
		if i.dir {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

// ---- process side ----

func abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = "/work/" + p
	}
	return path.Clean(p)
}

func perr(op, p string, e error) error { return &os.PathError{Op: op, Path: p, Err: e} }

var errnos = map[string]error{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "ENOENT": syscall.ENOENT}

func (f *FS) log(op, p string, off int64, n int, err error, flag int, mode os.FileMode) {
	e := ""
	if err != nil {
		e = err.Error()
	}
	id := 0
	if g := f.w.cur; g != nil {
		id = g.Proc.ID
	}
	ino := 0
	if i := f.n[p]; i != nil {
		ino = i.ID
	}
	f.Ops = append(f.Ops, FSOp{f.w.now, op, p, off, n, e, flag, mode, id, ino})
	f.w.mix(uint64(len(f.Ops)))
}

// fault applies the fault rules; short is >=0 when only that many bytes are written before the error.
func (f *FS) fault(op, p string, n int) (err error, short int) {
	w := f.w
	w.syncPoint()
	for _, r := range f.Faults {
		if (r.Op != op && r.Op != "any") || !strings.Contains(p, r.Path) {
			continue
		}
		r.seen++
		if r.seen <= r.After || (r.Count > 0 && r.seen > r.After+r.Count) {
			continue
		}
		r.Hits++
		r.Last = w.now
		f.Fired[r.Op+":"+r.Err]++
		switch r.Err {
		case "SLOW":
			g := w.cur
			w.procAfter(g.Proc, int64(r.Ms)*1e6, "", func() { w.ready(g) })
			w.park("slow disk")
			continue
		case "SHORT":
			return syscall.ENOSPC, n / 2
		}
		e := errnos[r.Err]
		if e == nil {
			e = syscall.EIO
		}
		return e, 0
	}
	return nil, -1
}

func (f *FS) hook(op, p string, n int) (torn int) {
	if f.OnOp != nil {
		kill, t := f.OnOp(op, p, n)
		if kill {
			return t
		}
	}
	return -1
}

func (f *FS) die() {
	f.w.procDie(f.w.cur.Proc, 137, "killed", "")
	f.w.checkKilled()
}

type File struct {
	name   string
	ino    *Inode
	pos    int64
	flag   int
	closed bool
	std    bool
	p      *Proc
}

type FileMode = os.FileMode

var (
	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
)

func (f *FS) parentOK(p string) error {
	d := f.n[path.Dir(p)]
	if d == nil {
		return syscall.ENOENT
	}
	if !d.dir {
		return syscall.ENOTDIR
	}
	return nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	f := W.FS
	p := abs(name)
	if p == "" || strings.ContainsRune(name, 0) {
		return nil, perr("open", name, syscall.ENOENT)
	}
	err, _ := f.fault("open", p, 0)
	if err == nil && f.hook("open", p, 0) >= 0 {
		f.die()
	}
	ino := f.n[p]
	if err == nil {
		switch {
		case ino == nil && flag&os.O_CREATE == 0:
			err = syscall.ENOENT
		case ino == nil:
			err = f.parentOK(p)
		case ino != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
			err = syscall.EEXIST
		case ino.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0:
			err = syscall.EISDIR
		}
	}
	if err == nil && len(path.Base(p)) > 255 {
		err = syscall.ENAMETOOLONG
	}
	if err != nil {
		f.log("open", p, 0, 0, err, flag, perm)
		return nil, perr("open", name, err)
	}
	created := false
	if ino == nil {
		f.ids++
		ino = &Inode{Mode: perm, ID: f.ids, Created: f.w.now}
		f.n[p] = ino
		created = true
	}
	if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 && !ino.dev {
		if len(ino.Data) > 0 || !created {
			ino.Deletes = append(ino.Deletes, fmt.Sprintf("t=%.6f open(O_TRUNC) of %s discards %d bytes", float64(f.w.now)/1e9, p, len(ino.Data)))
		}
		ino.Data = nil
	}
	h := &File{name: name, ino: ino, flag: flag, p: f.w.cur.Proc}
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		ino.Opens++
	}
	h.p.files[h] = true
	op := "open"
	if created {
		op = "create"
	}
	f.log(op, p, 0, 0, nil, flag, perm)
	f.w.Logf("fs %s %s flag=%x", op, p, flag)
	return h, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (h *File) Name() string                 { return h.name }
func Print(a ...any) (int, error)            { return fmt.Fprint(Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(Stdout, a...) }

func (h *File) Fd() uintptr { return 99 }

func (h *File) chk(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.std {
		return nil
	}
	W.checkKilled()
	if h.closed {
		return perr(op, h.name, os.ErrClosed)
	}
	return nil
}

func (h *File) Write(b []byte) (int, error) {
	if h != nil && h.std {
		if logStd != nil {
			logStd.Write(b)
		}
		if h == Stdout && W != nil && W.cur != nil && W.cur.Proc != nil && W.cur.Proc.Capture {
			W.cur.Proc.Out = append(W.cur.Proc.Out, b...)
		}
		return len(b), nil
	}
	if err := h.chk("write"); err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = int64(len(h.ino.Data))
	}
	n, err := h.writeAt(b, h.pos)
	h.pos += int64(n)
	return n, err
}
func (h *File) writeAt(b []byte, off int64) (int, error) {
	f := W.FS
	p := abs(h.name)
	err, short := f.fault("write", p, len(b))
	if h.closed {
		return 0, perr("write", h.name, os.ErrClosed)
	}
	n := len(b)
	if err != nil && short >= 0 {
		n = short
	}
	torn := -1
	if err == nil {
		torn = f.hook("write", p, len(b))
		if torn >= 0 && torn < n {
			n = torn
		}
	}
	if !h.ino.dev && n > 0 {
		ino := h.ino
		end := off + int64(n)
		if off < int64(len(ino.Data)) {
			o := end
			if o > int64(len(ino.Data)) {
				o = int64(len(ino.Data))
			}
			ino.Deletes = append(ino.Deletes, fmt.Sprintf("t=%.6f write at %d over %d existing bytes of %s", float64(W.now)/1e9, off, o-off, p))
		}
		for int64(len(ino.Data)) < end {
			ino.Data = append(ino.Data, make([]byte, end-int64(len(ino.Data)))...)
		}
		copy(ino.Data[off:end], b[:n])
		ino.Writes++
		ino.mtime = W.now
	}
	f.log("write", p, off, n, err, 0, 0)
	if torn >= 0 {
		f.die()
	}
	if f.OnWrite != nil && n > 0 {
		f.OnWrite(p, h.ino)
	}
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *File) WriteAt(b []byte, off int64) (int, error) {
	if err := h.chk("write"); err != nil {
		return 0, err
	}
	return h.writeAt(b, off)
}
func (h *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, werr := h.Write(b)
	if err == nil {
		err = werr
	}
	return int64(n), err
}
func (h *File) Read(b []byte) (int, error) {
	if h != nil && h.std {
		return 0, io.EOF
	}
	if err := h.chk("read"); err != nil {
		return 0, err
	}
	if h.pos >= int64(len(h.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.Data[h.pos:])
	h.pos += int64(n)
	return n, nil
}
func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if err := h.chk("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(h.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (h *File) Seek(off int64, wh int) (int64, error) {
	if err := h.chk("seek"); err != nil {
		return 0, err
	}
	f := W.FS
	if err, _ := f.fault("seek", abs(h.name), 0); err != nil {
		f.log("seek", abs(h.name), off, 0, err, 0, 0)
		return 0, perr("seek", h.name, err)
	}
	switch wh {
	case io.SeekStart:
		h.pos = off
	case io.SeekCurrent:
		h.pos += off
	case io.SeekEnd:
		h.pos = int64(len(h.ino.Data)) + off
	}
	if h.pos < 0 {
		h.pos = 0
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	return h.pos, nil
}
func (h *File) Truncate(n int64) error {
	if err := h.chk("truncate"); err != nil {
		return err
	}
	f := W.FS
	if err, _ := f.fault("write", abs(h.name), 0); err != nil {
		return perr("truncate", h.name, err)
	}
	if n < int64(len(h.ino.Data)) {
		h.ino.Deletes = append(h.ino.Deletes, fmt.Sprintf("t=%.6f truncate of %s from %d to %d bytes", float64(W.now)/1e9, h.name, len(h.ino.Data), n))
		h.ino.Data = h.ino.Data[:n]
	} else {
		h.ino.Data = append(h.ino.Data, make([]byte, n-int64(len(h.ino.Data)))...)
	}
	f.log("truncate", abs(h.name), n, 0, nil, 0, 0)
	return nil
}
func (h *File) Sync() error {
	if h != nil && h.std {
		return nil
	}
	if err := h.chk("sync"); err != nil {
		return err
	}
	if err, _ := W.FS.fault("sync", abs(h.name), 0); err != nil {
		return perr("sync", h.name, err)
	}
	return nil
}
func (h *File) Chmod(m os.FileMode) error {
	if err := h.chk("chmod"); err != nil {
		return err
	}
	h.ino.Mode = m
	return nil
}
func (h *File) Close() error {
	if h != nil && h.std {
		return nil
	}
	if err := h.chk("close"); err != nil {
		return err
	}
	f := W.FS
	err, _ := f.fault("close", abs(h.name), 0)
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	delete(h.p.files, h)
	if h.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		h.ino.Opens--
	}
	f.log("close", abs(h.name), 0, 0, err, 0, 0)
	W.Logf("fs close %s size=%d", h.name, len(h.ino.Data))
	if err != nil {
		return perr("close", h.name, err)
	}
	return nil
}
func (h *File) Stat() (os.FileInfo, error) {
	if h != nil && h.std {
		return finfo{"stdout", &Inode{Mode: 0600}}, nil
	}
	if err := h.chk("stat"); err != nil {
		return nil, err
	}
	return finfo{path.Base(h.name), h.ino}, nil
}
func (h *File) SetDeadline(t time.Time) error      { return nil }
func (h *File) SetReadDeadline(t time.Time) error  { return nil }
func (h *File) SetWriteDeadline(t time.Time) error { return nil }
func (h *File) Readdir(n int) (o []os.FileInfo, err error) {
	l, err := ReadDir(h.name)
	for _, e := range l {
		if i, err := e.Info(); err == nil {
			o = append(o, i)
		}
	}
	return
}
func (h *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(h.name) }

type finfo struct {
	n string
	i *Inode
}

func (s finfo) Name() string       { return s.n }
func (s finfo) Size() int64        { return int64(len(s.i.Data)) }
func (s finfo) Mode() os.FileMode  { return s.i.Mode }
func (s finfo) ModTime() time.Time { return mkTime(Epoch+s.i.mtime, s.i.mtime) }
func (s finfo) IsDir() bool        { return s.i.dir }
func (s finfo) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	f := W.FS
	p := abs(name)
	if err, _ := f.fault("stat", p, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	i := f.n[p]
	if strings.ContainsRune(name, 0) {
		return nil, perr("stat", name, syscall.EINVAL)
	}
	if i == nil || p == "" {
		// a path below a regular file is ENOTDIR
		for q := path.Dir(p); q != "/" && q != "." && q != ""; q = path.Dir(q) {
			if x := f.n[q]; x != nil {
				if !x.dir {
					return nil, perr("stat", name, syscall.ENOTDIR)
				}
				break
			}
		}
		for _, c := range strings.Split(p, "/") {
			if len(c) > 255 {
				return nil, perr("stat", name, syscall.ENAMETOOLONG)
			}
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return finfo{path.Base(p), i}, nil
}
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }
func Mkdir(name string, perm os.FileMode) error {
	f := W.FS
	p := abs(name)
	if err, _ := f.fault("mkdir", p, 0); err != nil {
		f.log("mkdir", p, 0, 0, err, 0, perm)
		return perr("mkdir", name, err)
	}
	if f.n[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err := f.parentOK(p); err != nil {
		return perr("mkdir", name, err)
	}
	if len(path.Base(p)) > 255 {
		return perr("mkdir", name, syscall.ENAMETOOLONG)
	}
	f.ids++
	f.n[p] = &Inode{dir: true, Mode: perm | os.ModeDir, ID: f.ids}
	f.log("mkdir", p, 0, 0, nil, 0, perm)
	return nil
}
func MkdirAll(name string, perm os.FileMode) error {
	f := W.FS
	p := abs(name)
	if i := f.n[p]; i != nil {
		if i.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil && errors.Is(err, fs.ErrExist) && f.n[p] != nil && f.n[p].dir {
		return nil
	}
	return err
}
func (f *FS) destroy(op, p string) {
	if i := f.n[p]; i != nil && !i.dir && len(i.Data) > 0 {
		i.Deletes = append(i.Deletes, fmt.Sprintf("t=%.6f %s of %s with %d bytes", float64(f.w.now)/1e9, op, p, len(i.Data)))
	}
}
func Remove(name string) error {
	f := W.FS
	p := abs(name)
	if err, _ := f.fault("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	i := f.n[p]
	if i == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if i.dir {
		for q := range f.n {
			if path.Dir(q) == p && q != p {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	f.log("remove", p, 0, len(i.Data), nil, 0, 0)
	f.destroy("remove", p)
	delete(f.n, p)
	return nil
}
func RemoveAll(name string) error {
	f := W.FS
	p := abs(name)
	W.syncPoint()
	var ps []string
	for q := range f.n {
		if q == p || strings.HasPrefix(q, p+"/") {
			ps = append(ps, q)
		}
	}
	sort.Strings(ps)
	for _, q := range ps {
		f.log("remove", q, 0, len(f.n[q].Data), nil, 0, 0)
		f.destroy("remove", q)
		delete(f.n, q)
	}
	return nil
}
func Rename(a, b string) error {
	f := W.FS
	pa, pb := abs(a), abs(b)
	if err, _ := f.fault("rename", pa, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	i := f.n[pa]
	if i == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	if err := f.parentOK(pb); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	f.destroy("rename over", pb)
	if f.n[pb] != nil {
		f.log("remove", pb, 0, len(f.n[pb].Data), nil, 0, 0)
	}
	f.n[pb] = i
	delete(f.n, pa)
	f.log("rename", pb, 0, 0, nil, 0, 0)
	return nil
}
func Link(a, b string) error {
	f := W.FS
	pa, pb := abs(a), abs(b)
	if err, _ := f.fault("link", pa, 0); err != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	if f.n[pa] == nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if f.n[pb] != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	f.n[pb] = f.n[pa]
	f.log("create", pb, 0, 0, nil, os.O_EXCL, 0)
	return nil
}
func Truncate(name string, n int64) error {
	h, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Truncate(n)
}
func Chmod(name string, m os.FileMode) error {
	if i := W.FS.n[abs(name)]; i != nil {
		i.Mode = m
		return nil
	}
	return perr("chmod", name, syscall.ENOENT)
}
func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return append([]byte(nil), h.ino.Data...), nil
}
func WriteFile(name string, b []byte, perm os.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(b)
	if e := h.Close(); err == nil {
		err = e
	}
	return err
}
func CreateTemp(dir, pat string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for {
		W.FS.tmp++
		n := pat
		if i := strings.LastIndex(n, "*"); i >= 0 {
			n = fmt.Sprintf("%s%d%s", n[:i], W.FS.tmp, n[i+1:])
		} else {
			n = fmt.Sprintf("%s%d", n, W.FS.tmp)
		}
		h, err := OpenFile(path.Join(dir, n), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return h, err
	}
}

type dirent struct{ finfo }

func (d dirent) Type() os.FileMode          { return d.i.Mode.Type() }
func (d dirent) Info() (os.FileInfo, error) { return d.finfo, nil }

func ReadDir(name string) ([]os.DirEntry, error) {
	f := W.FS
	p := abs(name)
	W.syncPoint()
	if i := f.n[p]; i == nil || !i.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var r []os.DirEntry
	var ps []string
	for q := range f.n {
		if path.Dir(q) == p && q != p {
			ps = append(ps, q)
		}
	}
	sort.Strings(ps)
	for _, q := range ps {
		r = append(r, dirent{finfo{path.Base(q), f.n[q]}})
	}
	return r, nil
}
func EvalSymlinks(p string) (string, error) {
	if _, err := Stat(p); err != nil {
		return "", err
	}
	return path.Clean(p), nil
}
func Getpid() int { return 1000 + W.cur.Proc.ID }
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(finfo)
	y, ok2 := b.(finfo)
	return ok1 && ok2 && x.i == y.i
}
