// Package zos is the simulated operating system behind the metadata build command:
// an in-memory file system, every operation of which is a fault point.
package zos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
)

type node struct {
	dir  bool
	data []byte
	mode fs.FileMode
}

// State of the simulated machine. One simulated task runs at a time.
var (
	nodes   = map[string]*node{"/": {dir: true, mode: 0o755}, "/tmp": {dir: true, mode: 0o755}}
	cwd     = "/work"
	fault   *zzsim.MetaFault
	opCount uint64
	Log     []string
	Fired   string // what the fault hit
	full    bool
	stuck   string
	dirRNG  *zzsim.RNG
	tmpN    int
	// Unsupported is set when the code uses something the simulation does not model.
	Unsupported string
	// OnCrash and OnExit end the simulated process.
	OnCrash func()
	OnExit  func(code int)
)

// Setup installs the file tree (paths relative to the working directory; a trailing
// slash makes a directory).
func Setup(files map[string][]byte, dirSeed uint64, f *zzsim.MetaFault) {
	mkparents("/work")
	nodes["/work"] = &node{dir: true, mode: 0o755}
	for p, b := range files {
		if strings.HasSuffix(p, "/") {
			q := abs(p)
			mkparents(q)
			nodes[q] = &node{dir: true, mode: 0o755}
			continue
		}
		Put(p, b)
	}
	if dirSeed != 0 {
		dirRNG = zzsim.NewRNG(dirSeed)
	}
	fault = f
}

// Put creates a file outside the fault layer.
func Put(p string, b []byte) {
	q := abs(p)
	mkparents(q)
	nodes[q] = &node{data: append([]byte{}, b...), mode: 0o664}
}

func mkparents(q string) {
	for d := path.Dir(q); d != "/" && d != "."; d = path.Dir(d) {
		if nodes[d] == nil {
			nodes[d] = &node{dir: true, mode: 0o755}
		}
	}
}

// Dump returns the tree below the working directory.
func Dump() map[string][]byte {
	out := map[string][]byte{}
	for p, n := range nodes {
		if r, ok := strings.CutPrefix(p, "/work/"); ok {
			if n.dir {
				out[r+"/"] = nil
			} else {
				out[r] = n.data
			}
		}
	}
	return out
}

func abs(p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(cwd, p)
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// verdict of the fault layer on one operation
type verdict int

const (
	pass verdict = iota
	failNow
	failTorn   // a part takes effect, then the operation fails
	failAfter  // takes full effect, then fails
	crashTorn  // a part takes effect, then the process dies
	crashAfter // takes full effect, then the process dies
)

// Step is the fault point every operation passes. mut: it changes the disk; data: it
// moves data (so that it can be torn).
func Step(op, p string, mut, data bool) (verdict, error) {
	zzsim.SyncPoint(50)
	i := opCount
	opCount++
	if len(Log) < 20000 {
		Log = append(Log, op+" "+strings.TrimPrefix(abs(p), "/work/"))
	}
	if full && mut && (data || op == "mkdir" || op == "create") {
		return failNow, syscall.ENOSPC
	}
	if stuck != "" && strings.HasPrefix(abs(p)+"/", stuck) {
		return failNow, syscall.EIO
	}
	if fault == nil || fault.At != i {
		return pass, nil
	}
	Fired = fault.Kind + " at " + op + " " + strings.TrimPrefix(abs(p), "/work/")
	switch fault.Kind {
	case "crash":
		OnCrash()
	case "crashafter":
		return crashAfter, nil
	case "crashtorn":
		if data {
			return crashTorn, nil
		}
		OnCrash()
	case "torn":
		if data {
			return failTorn, syscall.EIO
		}
		return failNow, syscall.EIO
	case "late":
		if data && mut {
			return failAfter, syscall.EIO
		}
		return failNow, syscall.EIO
	case "full":
		full = true
		if data && mut {
			return failTorn, syscall.ENOSPC
		}
		if mut && op != "remove" && op != "rename" {
			return failNow, syscall.ENOSPC
		}
		return pass, nil
	case "stick":
		stuck = abs(p) + "/"
		return failNow, syscall.EIO
	}
	return failNow, syscall.EIO
}

// Part says how many of n units of a torn operation take effect.
func Part(n int) int {
	if n <= 0 || fault == nil {
		return 0
	}
	return int(fault.Part % uint64(n))
}

// do runs an operation without data under the fault layer.
func do(op, p string, mut bool, f func() error) error {
	v, err := Step(op, p, mut, false)
	if v == failNow {
		return perr(op, p, err)
	}
	e := f()
	if v == crashAfter {
		OnCrash()
	}
	if e != nil {
		return e
	}
	return nil
}

// ---- os API -----------------------------------------------------------------------

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	q := abs(name)
	var out *File
	op, mut := "open", false
	if flag&os.O_CREATE != 0 || flag&os.O_TRUNC != 0 {
		op, mut = "create", true
	}
	err := do(op, name, mut, func() error {
		n := nodes[q]
		if n == nil {
			if flag&os.O_CREATE == 0 {
				return perr("open", name, syscall.ENOENT)
			}
			if d := nodes[path.Dir(q)]; d == nil {
				return perr("open", name, syscall.ENOENT)
			} else if !d.dir {
				return perr("open", name, syscall.ENOTDIR)
			}
			n = &node{mode: perm}
			nodes[q] = n
		} else {
			if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
				return perr("open", name, syscall.EEXIST)
			}
			if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
				return perr("open", name, syscall.EISDIR)
			}
			if flag&os.O_TRUNC != 0 {
				n.data = nil
			}
		}
		out = &File{n: n, name: name, q: q, flag: flag}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

func Remove(name string) error {
	q := abs(name)
	return do("remove", name, true, func() error {
		n := nodes[q]
		if n == nil {
			return perr("remove", name, syscall.ENOENT)
		}
		if n.dir && len(children(q)) > 0 {
			return perr("remove", name, syscall.ENOTEMPTY)
		}
		delete(nodes, q)
		return nil
	})
}

func RemoveAll(name string) error {
	q := abs(name)
	v, err := Step("removeall", name, true, true)
	if v == failNow {
		return perr("removeall", name, err)
	}
	var all []string
	for p := range nodes {
		if p == q || strings.HasPrefix(p, q+"/") {
			all = append(all, p)
		}
	}
	// deepest first, in the order directories happen to list their entries
	sort.Strings(all)
	sort.SliceStable(all, func(i, j int) bool { return strings.Count(all[i], "/") > strings.Count(all[j], "/") })
	k := len(all)
	if v == failTorn || v == crashTorn {
		k = Part(len(all))
	}
	for _, p := range all[:k] {
		delete(nodes, p)
	}
	return after(v, "removeall", name, err)
}

func after(v verdict, op, name string, err error) error {
	switch v {
	case crashTorn, crashAfter:
		OnCrash()
	case failTorn, failAfter:
		return perr(op, name, err)
	}
	return nil
}

func Rename(a, b string) error {
	qa, qb := abs(a), abs(b)
	v, err := Step("rename", b, true, false)
	if v == failNow {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	le := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	n := nodes[qa]
	if n == nil || nodes[path.Dir(qb)] == nil {
		return le(syscall.ENOENT)
	}
	if m := nodes[qb]; m != nil && m.dir {
		if !n.dir {
			return le(syscall.EEXIST)
		}
		if len(children(qb)) > 0 {
			return le(syscall.ENOTEMPTY)
		}
	}
	if qa != qb {
		delete(nodes, qa)
		nodes[qb] = n
		if n.dir {
			for p, m := range nodes {
				if r, ok := strings.CutPrefix(p, qa+"/"); ok {
					delete(nodes, p)
					defer func() { nodes[qb+"/"+r] = m }()
				}
			}
		}
	}
	if v == crashAfter {
		OnCrash()
	}
	return nil
}

func Mkdir(name string, perm fs.FileMode) error {
	q := abs(name)
	return do("mkdir", name, true, func() error {
		if nodes[q] != nil {
			return perr("mkdir", name, syscall.EEXIST)
		}
		if d := nodes[path.Dir(q)]; d == nil || !d.dir {
			return perr("mkdir", name, syscall.ENOENT)
		}
		nodes[q] = &node{dir: true, mode: perm}
		return nil
	})
}

func MkdirAll(name string, perm fs.FileMode) error {
	q := abs(name)
	return do("mkdir", name, true, func() error {
		for d := q; d != "/"; d = path.Dir(d) {
			if n := nodes[d]; n != nil && !n.dir {
				return perr("mkdir", name, syscall.ENOTDIR)
			}
		}
		mkparents(q)
		if nodes[q] == nil {
			nodes[q] = &node{dir: true, mode: perm}
		}
		return nil
	})
}

func Stat(name string) (fs.FileInfo, error) {
	q := abs(name)
	var out fs.FileInfo
	err := do("stat", name, false, func() error {
		n := nodes[q]
		if n == nil {
			return perr("stat", name, syscall.ENOENT)
		}
		out = info{path.Base(q), n}
		return nil
	})
	return out, err
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func children(q string) []string {
	pre := q + "/"
	if q == "/" {
		pre = "/"
	}
	var out []string
	for p := range nodes {
		if r, ok := strings.CutPrefix(p, pre); ok && r != "" && !strings.Contains(r, "/") {
			out = append(out, r)
		}
	}
	sort.Strings(out)
	return out
}

func entries(q string, sorted bool) []fs.DirEntry {
	names := children(q)
	if !sorted && dirRNG != nil {
		for i := len(names) - 1; i > 0; i-- {
			j := dirRNG.N(i + 1)
			names[i], names[j] = names[j], names[i]
		}
	}
	var out []fs.DirEntry
	for _, c := range names {
		out = append(out, fs.FileInfoToDirEntry(info{c, nodes[path.Join(q, c)]}))
	}
	return out
}

// ReadDir sorts, as os.ReadDir does. A failure half-way returns what was read.
func ReadDir(name string) ([]fs.DirEntry, error) {
	q := abs(name)
	n := nodes[q]
	v, err := Step("readdir", name, false, true)
	if v == failNow {
		return nil, perr("open", name, err)
	}
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	es := entries(q, true)
	if v == failTorn {
		return es[:Part(len(es))], perr("readdirent", name, err)
	}
	return es, after(v, "readdirent", name, err)
}

func Exit(code int) { OnExit(code); panic("unreachable") }

func MkdirTemp(dir, pattern string) (string, error) {
	for {
		p := tmpName(dir, pattern)
		err := Mkdir(p, 0o700)
		if err == nil || !os.IsExist(err) {
			return p, err
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	for {
		f, err := OpenFile(tmpName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if err == nil || !os.IsExist(err) {
			return f, err
		}
	}
}

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	r := itoa(int(zzsim.Rand64() % 1000000000))
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return path.Join(dir, pattern[:i]+r+pattern[i+1:])
	}
	return path.Join(dir, pattern+r)
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

func Chdir(name string) error {
	q := abs(name)
	if n := nodes[q]; n == nil || !n.dir {
		return perr("chdir", name, syscall.ENOENT)
	}
	cwd = q
	return nil
}

func Getwd() (string, error) { return cwd, nil }
func TempDir() string        { return "/tmp" }

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, m fs.FileMode) error {
	q := abs(name)
	return do("chmod", name, true, func() error {
		if nodes[q] == nil {
			return perr("chmod", name, syscall.ENOENT)
		}
		nodes[q].mode = nodes[q].mode&fs.ModeDir | m.Perm()
		return nil
	})
}

func Link(a, b string) error {
	qa, qb := abs(a), abs(b)
	return do("create", b, true, func() error {
		if nodes[qa] == nil {
			return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
		}
		if nodes[qb] != nil {
			return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
		}
		nodes[qb] = nodes[qa]
		return nil
	})
}

func Symlink(a, b string) error {
	Unsupported = "symlink"
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.ENOSYS}
}

func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

// DirFS is os.DirFS over the simulated tree.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error)    { return Open(path.Join(string(d), name)) }
func (d dirFS) ReadFile(name string) ([]byte, error) { return ReadFile(path.Join(string(d), name)) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	return ReadDir(path.Join(string(d), name))
}
func (d dirFS) Stat(name string) (fs.FileInfo, error) { return Stat(path.Join(string(d), name)) }

// CopyFS is os.CopyFS.
func CopyFS(dir string, f fs.FS) error {
	return fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			return MkdirAll(path.Join(dir, p), 0o777)
		}
		b, err := fs.ReadFile(f, p)
		if err != nil {
			return err
		}
		return WriteFile(path.Join(dir, p), b, 0o666)
	})
}

type info struct {
	name string
	n    *node
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return i.n.mode | fs.ModeDir
	}
	return i.n.mode
}
func (i info) ModTime() time.Time { return time.Unix(0, zzsim.Clock()) }
func (i info) IsDir() bool        { return i.n.dir }
func (i info) Sys() any           { return nil }

// ---- files -------------------------------------------------------------------------

// File is *os.File.
type File struct {
	n      *node
	name   string
	q      string
	flag   int
	off    int64
	closed bool
	ents   []fs.DirEntry
	listed bool
	std    *os.File // one of the standard streams, which stay what they are
}

var (
	Stdin  = &File{std: os.Stdin, n: &node{}, name: "/dev/stdin"}
	Stdout = &File{std: os.Stdout, n: &node{}, name: "/dev/stdout"}
	Stderr = &File{std: os.Stderr, n: &node{}, name: "/dev/stderr"}
)

func (f *File) Fd() uintptr {
	if f.std != nil {
		return f.std.Fd()
	}
	return ^uintptr(0)
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) Name() string { return f.name }

func (f *File) Read(p []byte) (int, error) {
	if f.std != nil {
		return f.std.Read(p)
	}
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	v, err := Step("read", f.name, false, true)
	if v == failNow {
		return 0, perr("read", f.name, err)
	}
	n := copy(p, f.n.data[f.off:])
	if v == failTorn {
		n = Part(n)
	}
	f.off += int64(n)
	return n, after(v, "read", f.name, err)
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	o := f.off
	f.off = off
	defer func() { f.off = o }()
	t := 0
	for t < len(p) {
		n, err := f.Read(p[t:])
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (f *File) Write(p []byte) (int, error) {
	if f.std != nil {
		return f.std.Write(p)
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	v, err := Step("write", f.name, true, true)
	if v == failNow {
		return 0, perr("write", f.name, err)
	}
	n := len(p)
	if v == failTorn || v == crashTorn {
		n = Part(n)
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	end := f.off + int64(n)
	if end > int64(len(f.n.data)) {
		f.n.data = append(f.n.data, make([]byte, end-int64(len(f.n.data)))...)
	}
	copy(f.n.data[f.off:end], p[:n])
	f.off = end
	return n, after(v, "write", f.name, err)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	o := f.off
	f.off = off
	n, err := f.Write(p)
	f.off = o
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Truncate(size int64) error {
	return do("truncate", f.name, true, func() error {
		for int64(len(f.n.data)) < size {
			f.n.data = append(f.n.data, 0)
		}
		f.n.data = f.n.data[:size]
		return nil
	})
}

func (f *File) Sync() error {
	if f.std != nil {
		return nil
	}
	return do("sync", f.name, true, func() error { return nil })
}

func (f *File) Chmod(m fs.FileMode) error   { return Chmod(f.name, m) }
func (f *File) Stat() (fs.FileInfo, error)  { return info{path.Base(f.q), f.n}, nil }
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }

func (f *File) Close() error {
	if f.std != nil {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return nil
	}
	// what a delayed write reports at close
	return do("close", f.name, true, func() error { return nil })
}

// ReadDir lists in directory order, which the simulation decides.
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if !f.n.dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if !f.listed {
		v, err := Step("readdir", f.name, false, true)
		if v == failNow {
			return nil, perr("readdirent", f.name, err)
		}
		f.ents, f.listed = entries(f.q, false), true
		if v == failTorn {
			es := f.ents[:Part(len(f.ents))]
			f.ents = nil
			return es, perr("readdirent", f.name, err)
		}
		if e := after(v, "readdirent", f.name, err); e != nil {
			return nil, e
		}
	}
	if n <= 0 {
		es := f.ents
		f.ents = nil
		return es, nil
	}
	if len(f.ents) == 0 {
		return nil, io.EOF
	}
	n = min(n, len(f.ents))
	es := f.ents[:n]
	f.ents = f.ents[n:]
	return es, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

// Clone writes files below dest as one torn-able operation (used by the simulated git).
func Clone(dest string, files map[string][]byte) error {
	v, err := Step("clone", dest, true, true)
	if v == failNow {
		return err
	}
	names := make([]string, 0, len(files))
	for p := range files {
		names = append(names, p)
	}
	sort.Strings(names)
	k := len(names)
	if v == failTorn || v == crashTorn {
		k = Part(len(names))
		if k > 0 {
			// the last file is cut in the middle
			k--
			b := files[names[k]]
			Put(path.Join(dest, names[k]), b[:len(b)/2])
		}
	}
	if nodes[abs(dest)] == nil {
		mkparents(abs(dest))
		nodes[abs(dest)] = &node{dir: true, mode: 0o755}
	}
	for _, p := range names[:k] {
		Put(path.Join(dest, p), files[p])
	}
	return after(v, "clone", dest, err)
}

// NotEmpty says whether p exists and is not an empty directory.
func NotEmpty(p string) bool {
	q := abs(p)
	n := nodes[q]
	return n != nil && (!n.dir || len(children(q)) > 0)
}

// IsDir is used by the simulated git.
func IsDir(p string) bool { n := nodes[abs(p)]; return n != nil && n.dir }

// Glob lists matching paths, as filepath.Glob: unreadable directories are skipped.
func Glob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := path.Split(pattern)
	if !strings.ContainsAny(pattern, `*?[\`) {
		if nodes[abs(pattern)] == nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	d := strings.TrimSuffix(dir, "/")
	if d == "" {
		d = "."
	}
	dirs := []string{d}
	if strings.ContainsAny(d, `*?[\`) {
		var err error
		if dirs, err = Glob(d); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		if !IsDir(d) {
			continue
		}
		if v, _ := Step("readdir", d, false, true); v != pass {
			after(v, "", "", nil)
			continue
		}
		for _, c := range children(abs(d)) {
			if ok, _ := path.Match(file, c); ok {
				if d == "." && dir == "" {
					out = append(out, c)
				} else {
					out = append(out, path.Join(d, c))
				}
			}
		}
	}
	return out, nil
}

// OpCount is the number of fault points passed.
func OpCount() uint64 { return opCount }

// Finish ends the process when a verdict says so.
func Finish(v verdict) { after(v, "", "", nil) }
