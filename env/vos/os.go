// Package vos stands for os: an in-memory file system in which every operation is a numbered step
// that can be made to fail, or at which the process can be made to stop (crash).
package vos

import (
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/flu-network/client/zzverif/env/vtime"
	"github.com/flu-network/client/zzverif/sym"
)

type FileMode = fs.FileMode
type FileInfo = fs.FileInfo
type DirEntry = fs.DirEntry
type PathError = fs.PathError

const (
	O_RDONLY = 0x0
	O_WRONLY = 0x1
	O_RDWR   = 0x2
	O_APPEND = 0x400
	O_CREATE = 0x40
	O_EXCL   = 0x80
	O_SYNC   = 0x101000
	O_TRUNC  = 0x200

	ModePerm = fs.ModePerm
	ModeDir  = fs.ModeDir

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid    = fs.ErrInvalid
	ErrPermission = fs.ErrPermission
	ErrExist      = fs.ErrExist
	ErrNotExist   = fs.ErrNotExist
	ErrClosed     = fs.ErrClosed
)

var Args = []string{"flu"}

type errno string

func (e errno) Error() string { return string(e) }

var errIsDir error = errno("is a directory")
var errNotDir error = errno("not a directory")
var errNotEmpty error = errno("directory not empty")
var errBadFd error = errno("bad file descriptor")

// ErrFault is the error of an injected fault.
var ErrFault error = errno("input/output error")

// ---- the disk

// Node is a file or directory.
type Node struct {
	Dir      bool
	Data     []byte
	Far      []Extent // data written beyond MaxFile, oldest first, in an otherwise sparse file
	end      int64    // where the last of it ends
	Children map[string]*Node
	Mode     FileMode
	Link     string // of a symbolic link: where it leads
	MTime    int64  // when it was changed last, in nanoseconds since the virtual clock was started
}

// Extent is a piece of a sparse file.
type Extent struct {
	Off  int64
	Data []byte
}

// Len is the size of the file.
func (n *Node) Len() int64 {
	if n.end > int64(len(n.Data)) {
		return n.end
	}
	return int64(len(n.Data))
}

// read copies what the file holds at off, which lies within it.
func (n *Node) read(b []byte, off int64) int {
	if len(n.Far) == 0 {
		return copy(b, n.Data[off:])
	}
	if left := n.Len() - off; int64(len(b)) > left {
		b = b[:int(left)]
	}
	for i := range b {
		b[i] = 0
	}
	if off < int64(len(n.Data)) {
		copy(b, n.Data[off:])
	}
	for _, e := range n.Far {
		lo, hi := off, off+int64(len(b))
		if e.Off > lo {
			lo = e.Off
		}
		if end := e.Off + int64(len(e.Data)); end < hi {
			hi = end
		}
		if lo < hi {
			copy(b[int(lo-off):int(hi-off)], e.Data[int(lo-e.Off):])
		}
	}
	return len(b)
}

// Disk is a file system.
type Disk struct{ Root *Node }

func NewDisk() *Disk {
	return &Disk{Root: &Node{Dir: true, Children: map[string]*Node{}}}
}

// Cur is the disk in use.
var Cur = NewDisk()

// Wd is the working directory.
var Wd = "/work"

// Open handles (a leak shows as a number that never comes back down).
var OpenHandles int

// Fault, when set, is called before every step that can fail; a non-nil result makes it fail.
var Fault func(op, path string) error

// Crash, when set, is called before every step that changes the disk with the number of units
// (bytes) it is made of; the result is how many of them are carried out before the process stops
// (-1: all of them, and it goes on).
var Crash func(op, path string, n int) int

// Dead is set once the process has stopped: nothing reaches the disk any more.
var Dead bool

// OnCrash ends the run of the process (it must not return).
var OnCrash func()

// Steps counts the steps.
var Steps int

// Log records the paths that were created, changed or removed.
type Change struct {
	Op, Path string
	Off      int64
	Len      int
}

var Log []Change

func note(op, path string, off int64, n int) {
	Log = append(Log, Change{op, path, off, n})
}

// Reset gives a fresh, empty machine.
func Reset() {
	Cur = NewDisk()
	Wd = "/work"
	OpenHandles = 0
	Fault = nil
	Crash = nil
	Dead = false
	OnCrash = nil
	Steps = 0
	Log = nil
	Out = nil
	ExitHook = nil
}

func step(op, path string) error {
	Steps++
	if Dead {
		die()
	}
	if Fault != nil {
		return Fault(op, path)
	}
	return nil
}

func die() {
	if OnCrash != nil {
		OnCrash()
	}
	panic("vos: the stopped process goes on")
}

// crash asks whether the process stops within a step of n units; it returns how many to perform and
// whether to stop afterwards.
func crash(op, path string, n int) (int, bool) {
	if Crash == nil {
		return n, false
	}
	k := Crash(op, path, n)
	if k < 0 {
		return n, false
	}
	if k > n {
		k = n
	}
	return k, true
}

func stop() {
	Dead = true
	die()
}

func (d *Disk) copyNode(n *Node) *Node {
	c := &Node{Dir: n.Dir, Mode: n.Mode, Link: n.Link, MTime: n.MTime}
	if n.Dir {
		c.Children = map[string]*Node{}
		for _, k := range names(n) {
			c.Children[k] = d.copyNode(n.Children[k])
		}
	} else {
		c.Data = append([]byte(nil), n.Data...)
		c.Far = append([]Extent(nil), n.Far...)
		c.end = n.end
	}
	return c
}

// Snapshot copies the disk.
func (d *Disk) Snapshot() *Disk { return &Disk{Root: d.copyNode(d.Root)} }

func names(n *Node) []string {
	out := make([]string, 0, len(n.Children))
	for k := range n.Children {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = Wd + "/" + p
	}
	return filepath.Clean(p)
}

func (d *Disk) lookup(path string) (*Node, error) {
	_, n, err := d.follow(abs(path), true, 0)
	return n, err
}

// follow finds what a clean absolute path leads to, and its path without links.
func (d *Disk) follow(p string, last bool, depth int) (string, *Node, error) {
	if depth > 8 {
		return "", nil, errno("too many levels of symbolic links")
	}
	n, at := d.Root, ""
	parts := strings.Split(p, "/")
	for i, part := range parts {
		if part == "" {
			continue
		}
		if !n.Dir {
			return "", nil, errNotDir
		}
		c := n.Children[part]
		if c == nil {
			return "", nil, ErrNotExist
		}
		if c.Link != "" && (last || i+1 < len(parts)) {
			to := c.Link
			if !strings.HasPrefix(to, "/") {
				to = at + "/" + to
			}
			return d.follow(filepath.Join(to, strings.Join(parts[i+1:], "/")), last, depth+1)
		}
		n = c
		at += "/" + part
	}
	return at, n, nil
}

func (d *Disk) parent(path string) (*Node, string, error) {
	p := abs(path)
	dir, base := filepath.Split(p)
	n, err := d.lookup(dir)
	if err != nil {
		return nil, "", err
	}
	if !n.Dir {
		return nil, "", errNotDir
	}
	return n, base, nil
}

// ---- set-up and inspection for harnesses (no faults, no crashes)

// Pid is the number of the process.
var Pid = 4242

// NextProcess begins a new process.
func NextProcess() { Pid++ }

// Put creates a file (and its directories).
func Put(path string, data []byte) {
	PutDir(filepath.Dir(abs(path)))
	n, base, _ := Cur.parent(path)
	n.Children[base] = &Node{Data: append([]byte(nil), data...), MTime: vtime.Elapsed}
}

// SetMTime sets when a file was changed last, in nanoseconds since the virtual clock was started.
func SetMTime(path string, at int64) {
	if n, err := Cur.lookup(path); err == nil {
		n.MTime = at
	}
}

// Chtimes sets when a file was changed last.
func Chtimes(path string, atime, mtime time.Time) error {
	if err := step("chtimes", path); err != nil {
		return perr("chtimes", path, err)
	}
	n, err := Cur.lookup(path)
	if err != nil {
		return perr("chtimes", path, err)
	}
	n.MTime = mtime.Sub(time.Unix(1600000000, 0)).Nanoseconds()
	return nil
}

// Bind creates the file of a socket; false if it cannot.
func Bind(path string) bool {
	n, base, err := Cur.parent(path)
	if err != nil || n.Children[base] != nil {
		return false
	}
	n.Children[base] = &Node{Mode: fs.ModeSocket, MTime: vtime.Elapsed}
	return true
}

// PutLink creates a symbolic link.
func PutLink(path, to string) {
	PutDir(filepath.Dir(abs(path)))
	n, base, _ := Cur.parent(path)
	n.Children[base] = &Node{Link: to}
}

// PutDir creates a directory (and its parents).
func PutDir(path string) {
	n := Cur.Root
	for _, part := range strings.Split(abs(path), "/") {
		if part == "" {
			continue
		}
		c := n.Children[part]
		if c == nil {
			c = &Node{Dir: true, Children: map[string]*Node{}}
			n.Children[part] = c
		}
		n = c
	}
}

// Del removes a file.
func Del(path string) {
	n, base, err := Cur.parent(path)
	if err == nil {
		delete(n.Children, base)
	}
}

// Data returns the content of a file.
func Data(path string) ([]byte, bool) {
	n, err := Cur.lookup(path)
	if err != nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Exists tells whether something is there.
func Exists(path string) bool {
	_, err := Cur.lookup(path)
	return err == nil
}

// Files lists every file on the disk.
func Files() []string {
	var out []string
	walk(Cur.Root, "", &out)
	return out
}

func walk(n *Node, p string, out *[]string) {
	for _, k := range names(n) {
		c := n.Children[k]
		if c.Dir {
			walk(c, p+"/"+k, out)
		} else {
			*out = append(*out, p+"/"+k)
		}
	}
}

// ---- errors

func perr(op, path string, err error) error {
	if err == nil {
		return nil
	}
	return &fs.PathError{Op: op, Path: path, Err: err}
}

func under(err error) error {
	if pe, ok := err.(*fs.PathError); ok {
		return pe.Err
	}
	return err
}

func IsNotExist(err error) bool   { return under(err) == ErrNotExist }
func IsExist(err error) bool      { return under(err) == ErrExist || under(err) == errNotEmpty }
func IsPermission(err error) bool { return under(err) == ErrPermission }

// ---- files

type File struct {
	node   *Node
	path   string
	off    int64
	flag   int
	closed bool
	std    bool
}

type info struct {
	name string
	node *Node
	size int64
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) Mode() FileMode {
	if i.node.Dir {
		return ModeDir | 0777
	}
	if i.node.Link != "" {
		return fs.ModeSymlink | 0777
	}
	if i.node.Mode&fs.ModeSocket != 0 {
		return fs.ModeSocket | 0777
	}
	return 0666
}
func (i *info) ModTime() time.Time      { return time.Unix(1600000000, i.node.MTime) }
func (i *info) IsDir() bool             { return i.node.Dir }
func (i *info) Sys() interface{}        { return nil }
func (i *info) Type() FileMode          { return i.Mode().Type() }
func (i *info) Info() (FileInfo, error) { return i, nil }

func mkInfo(path string, n *Node) *info {
	if n.Link != "" {
		return &info{name: filepath.Base(path), node: n, size: int64(len(n.Link))}
	}
	return &info{name: filepath.Base(path), node: n, size: n.Len()}
}

func Open(path string) (*File, error)   { return OpenFile(path, O_RDONLY, 0) }
func Create(path string) (*File, error) { return OpenFile(path, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(path string, flag int, perm FileMode) (*File, error) {
	if err := step("open", path); err != nil {
		return nil, perr("open", path, err)
	}
	n, err := openNode(path, flag)
	if err != nil {
		return nil, perr("open", path, err)
	}
	OpenHandles++
	return &File{node: n, path: abs(path), flag: flag}, nil
}

func openNode(path string, flag int) (*Node, error) {
	if path == "" {
		return nil, ErrNotExist
	}
	if strings.IndexByte(path, 0) >= 0 {
		return nil, ErrInvalid
	}
	n, err := Cur.lookup(path)
	if err != nil {
		if err != ErrNotExist || flag&O_CREATE == 0 {
			return nil, err
		}
		par, base, err := Cur.parent(path)
		if err != nil {
			return nil, err
		}
		if len(base) > 255 {
			return nil, errno("file name too long")
		}
		_, st := crash("create", path, 0)
		if st {
			stop()
		}
		n = &Node{MTime: vtime.Elapsed}
		par.Children[base] = n
		note("create", abs(path), 0, 0)
	} else {
		if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
			return nil, ErrExist
		}
		if n.Dir && flag&(O_WRONLY|O_RDWR|O_TRUNC) != 0 {
			return nil, errIsDir
		}
	}
	if flag&O_TRUNC != 0 && n.Len() > 0 {
		_, st := crash("truncate", path, 0)
		if st {
			stop()
		}
		n.Data, n.Far, n.end = nil, nil, 0
		note("write", abs(path), 0, 0)
	}
	return n, nil
}

func (f *File) Name() string { return f.path }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.path, ErrClosed)
	}
	return nil
}

// ReadChunk, when set, decides how many bytes a read of up to n bytes returns and whether the end
// of file is reported together with the last bytes.
var ReadChunk func(n int) int

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if err := step("read", f.path); err != nil {
		return 0, perr("read", f.path, err)
	}
	if f.node.Dir {
		return 0, perr("read", f.path, errIsDir)
	}
	if f.flag&O_WRONLY != 0 {
		return 0, perr("read", f.path, errBadFd)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= f.node.Len() {
		return 0, io.EOF
	}
	avail := len(b)
	if left := f.node.Len() - f.off; left < int64(avail) {
		avail = int(left)
	}
	if ReadChunk != nil {
		avail = ReadChunk(avail)
	}
	n := f.node.read(b[:avail], f.off)
	sym.Touch(b[:n], true)
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.path, errno("negative offset"))
	}
	if err := step("read", f.path); err != nil {
		return 0, perr("read", f.path, err)
	}
	if f.node.Dir {
		return 0, perr("read", f.path, errIsDir)
	}
	if off >= f.node.Len() {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := f.node.read(b, off)
	sym.Touch(b[:n], true)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// MaxFile is where sparse storage begins.
var MaxFile int64 = 1 << 22

func (n *Node) write(path string, b []byte, off int64) {
	n.MTime = vtime.Elapsed
	end := off + int64(len(b))
	if end > MaxFile || len(n.Far) > 0 {
		n.Far = append(n.Far, Extent{off, append([]byte(nil), b...)})
		if end > n.end {
			n.end = end
		}
	}
	if end > MaxFile {
		sym.Assume(off >= MaxFile) // not across the border
		note("write", path, off, len(b))
		return
	}
	if end > int64(len(n.Data)) {
		d := make([]byte, int(end))
		copy(d, n.Data)
		n.Data = d
	}
	copy(n.Data[off:], b)
	note("write", path, off, len(b))
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		Out = append(Out, b...)
		return len(b), nil
	}
	if f.flag&O_APPEND != 0 {
		f.off = f.node.Len()
	}
	n, err := f.writeAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("writeat", f.path, errno("negative offset"))
	}
	return f.writeAt(b, off)
}

// PartialFault makes an injected write fault happen after half of the data.
var PartialFault bool

func (f *File) writeAt(b []byte, off int64) (int, error) {
	sym.Touch(b, false)
	if err := step("write", f.path); err != nil {
		k := 0
		if PartialFault && len(b) > 1 {
			k = len(b) / 2
			f.node.write(f.path, b[:k], off)
		}
		return k, perr("write", f.path, err)
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.path, errBadFd)
	}
	if len(b) == 0 {
		return 0, nil
	}
	k, st := crash("write", f.path, len(b))
	if k > 0 {
		f.node.write(f.path, b[:k], off)
	}
	if st {
		stop()
	}
	return len(b), nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	var tot int64
	buf := make([]byte, 4096)
	for {
		n, err := r.Read(buf)
		if n > 0 {
			m, werr := f.Write(buf[:n])
			tot += int64(m)
			if werr != nil {
				return tot, werr
			}
		}
		if err == io.EOF {
			return tot, nil
		}
		if err != nil {
			return tot, err
		}
	}
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
	case 1:
		off += f.off
	case 2:
		off += f.node.Len()
	}
	if off < 0 {
		return 0, perr("seek", f.path, ErrInvalid)
	}
	f.off = off
	return off, nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	OpenHandles--
	if f.flag&(O_WRONLY|O_RDWR) != 0 {
		if err := step("close", f.path); err != nil {
			return perr("close", f.path, err)
		}
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if err := step("sync", f.path); err != nil {
		return perr("sync", f.path, err)
	}
	return nil
}

func (f *File) Chmod(m FileMode) error { return f.check("chmod") }

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if err := step("stat", f.path); err != nil {
		return nil, perr("stat", f.path, err)
	}
	return mkInfo(f.path, f.node), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if err := step("truncate", f.path); err != nil {
		return perr("truncate", f.path, err)
	}
	return truncNode(f.node, f.path, size)
}

func truncNode(n *Node, path string, size int64) error {
	if n.Dir {
		return perr("truncate", path, errIsDir)
	}
	if size < 0 {
		return perr("truncate", path, ErrInvalid)
	}
	_, st := crash("truncate", path, 0)
	if st {
		stop()
	}
	n.MTime = vtime.Elapsed
	if size <= MaxFile {
		n.Far, n.end = nil, 0 // what lies below MaxFile is in Data, too
	}
	if size > MaxFile {
		for i := range n.Far {
			e := &n.Far[i]
			sym.Assume(e.Off+int64(len(e.Data)) <= size) // cutting through a piece is not modelled
		}
		n.end = size
	} else if size <= int64(len(n.Data)) {
		n.Data = n.Data[:int(size):int(size)]
	} else {
		d := make([]byte, int(size))
		copy(d, n.Data)
		n.Data = d
	}
	note("write", path, size, 0)
	return nil
}

func Truncate(path string, size int64) error {
	if err := step("truncate", path); err != nil {
		return perr("truncate", path, err)
	}
	n, err := Cur.lookup(path)
	if err != nil {
		return perr("truncate", path, err)
	}
	return truncNode(n, abs(path), size)
}

func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.path) }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := ReadDir(f.path)
	var out []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := ReadDir(f.path)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

// ---- operations on paths

func ReadFile(path string) ([]byte, error) {
	if err := step("read", path); err != nil {
		return nil, perr("open", path, err)
	}
	n, err := openNode(path, O_RDONLY)
	if err != nil {
		return nil, perr("open", path, err)
	}
	if n.Dir {
		return nil, perr("read", path, errIsDir)
	}
	sym.Assume(len(n.Far) == 0)
	return append([]byte{}, n.Data...), nil
}

func WriteFile(path string, data []byte, perm FileMode) error {
	f, err := OpenFile(path, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(path string) (FileInfo, error) {
	if err := step("stat", path); err != nil {
		return nil, perr("stat", path, err)
	}
	n, err := openNode(path, O_RDONLY)
	if err != nil {
		return nil, perr("stat", path, err)
	}
	return mkInfo(abs(path), n), nil
}

func Lstat(path string) (FileInfo, error) {
	if err := step("stat", path); err != nil {
		return nil, perr("lstat", path, err)
	}
	if path == "" {
		return nil, perr("lstat", path, ErrNotExist)
	}
	_, n, err := Cur.follow(abs(path), false, 0)
	if err != nil {
		return nil, perr("lstat", path, err)
	}
	return mkInfo(abs(path), n), nil
}

func Readlink(path string) (string, error) {
	_, n, err := Cur.follow(abs(path), false, 0)
	if err == nil && n.Link == "" {
		err = ErrInvalid
	}
	if err != nil {
		return "", perr("readlink", path, err)
	}
	return n.Link, nil
}

// Resolve gives the path of what path leads to, without links.
func Resolve(path string) (string, error) {
	if err := step("stat", path); err != nil {
		return "", perr("lstat", path, err)
	}
	p, _, err := Cur.follow(abs(path), true, 0)
	if err != nil {
		return "", perr("lstat", path, err)
	}
	if p == "" {
		p = "/"
	}
	return p, nil
}

func Mkdir(path string, perm FileMode) error {
	if err := step("mkdir", path); err != nil {
		return perr("mkdir", path, err)
	}
	par, base, err := Cur.parent(path)
	if err != nil {
		return perr("mkdir", path, err)
	}
	if par.Children[base] != nil {
		return perr("mkdir", path, ErrExist)
	}
	_, st := crash("mkdir", path, 0)
	if st {
		stop()
	}
	par.Children[base] = &Node{Dir: true, Children: map[string]*Node{}}
	note("mkdir", abs(path), 0, 0)
	return nil
}

func MkdirAll(path string, perm FileMode) error {
	if path == "" {
		return perr("mkdir", path, ErrNotExist)
	}
	if err := step("mkdir", path); err != nil {
		return perr("mkdir", path, err)
	}
	n := Cur.Root
	full := ""
	for _, part := range strings.Split(abs(path), "/") {
		if part == "" {
			continue
		}
		full += "/" + part
		c := n.Children[part]
		if c == nil {
			_, st := crash("mkdir", full, 0)
			if st {
				stop()
			}
			c = &Node{Dir: true, Children: map[string]*Node{}}
			n.Children[part] = c
			note("mkdir", full, 0, 0)
		}
		if !c.Dir {
			return perr("mkdir", path, errNotDir)
		}
		n = c
	}
	return nil
}

func Remove(path string) error {
	if err := step("remove", path); err != nil {
		return perr("remove", path, err)
	}
	par, base, err := Cur.parent(path)
	if err != nil {
		return perr("remove", path, err)
	}
	n := par.Children[base]
	if n == nil {
		return perr("remove", path, ErrNotExist)
	}
	if n.Dir && len(n.Children) > 0 {
		return perr("remove", path, errNotEmpty)
	}
	_, st := crash("remove", path, 0)
	if st {
		stop()
	}
	delete(par.Children, base)
	note("remove", abs(path), 0, 0)
	return nil
}

func RemoveAll(path string) error {
	if err := step("remove", path); err != nil {
		return perr("remove", path, err)
	}
	par, base, err := Cur.parent(path)
	if err != nil {
		return nil
	}
	if par.Children[base] == nil {
		return nil
	}
	_, st := crash("remove", path, 0)
	if st {
		stop()
	}
	delete(par.Children, base)
	note("remove", abs(path), 0, 0)
	return nil
}

func Rename(from, to string) error {
	if err := step("rename", to); err != nil {
		return perr("rename", from, err)
	}
	p1, b1, err := Cur.parent(from)
	if err != nil {
		return perr("rename", from, err)
	}
	n := p1.Children[b1]
	if n == nil {
		return perr("rename", from, ErrNotExist)
	}
	p2, b2, err := Cur.parent(to)
	if err != nil {
		return perr("rename", to, err)
	}
	if t := p2.Children[b2]; t != nil && t.Dir {
		return perr("rename", to, ErrExist)
	}
	_, st := crash("rename", to, 0)
	if st {
		stop()
	}
	delete(p1.Children, b1)
	p2.Children[b2] = n
	note("remove", abs(from), 0, 0)
	note("write", abs(to), 0, 0)
	return nil
}

func ReadDir(path string) ([]DirEntry, error) {
	if err := step("readdir", path); err != nil {
		return nil, perr("open", path, err)
	}
	n, err := Cur.lookup(path)
	if err != nil {
		return nil, perr("open", path, err)
	}
	if !n.Dir {
		return nil, perr("readdir", path, errNotDir)
	}
	var out []DirEntry
	for _, k := range names(n) {
		out = append(out, mkInfo(k, n.Children[k]))
	}
	return out, nil
}

var tempN int

func tempName(dir, pat string) string {
	if dir == "" {
		dir = TempDir()
	}
	tempN++
	num := string([]byte{byte('0' + tempN/10%10), byte('0' + tempN%10)})
	pre, suf := pat, ""
	if i := strings.LastIndexByte(pat, '*'); i >= 0 {
		pre, suf = pat[:i], pat[i+1:]
	}
	return filepath.Join(dir, pre+"77"+num+suf)
}

func CreateTemp(dir, pat string) (*File, error) {
	return OpenFile(tempName(dir, pat), O_RDWR|O_CREATE|O_EXCL, 0600)
}
func MkdirTemp(dir, pat string) (string, error) {
	n := tempName(dir, pat)
	return n, Mkdir(n, 0700)
}
func TempDir() string { return "/tmp" }

func Chmod(path string, m FileMode) error { return nil }
func Getwd() (string, error)              { return Wd, nil }
func Chdir(p string) error                { Wd = abs(p); return nil }
func UserHomeDir() (string, error)        { return "/home/user", nil }
func Getppid() int                        { return 1 }
func Getpid() int                         { return Pid }
func Getuid() int                         { return 1000 }
func Getenv(k string) string              { return "" }
func LookupEnv(k string) (string, bool)   { return "", false }
func Hostname() (string, error)           { return "host", nil }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.node == y.node
}

// ExitHook, when set, is called instead of failing when the program exits.
var ExitHook func(code int)

func Exit(code int) {
	if ExitHook != nil {
		ExitHook(code)
	}
	sym.Exit("os.Exit")
}

// ---- standard streams

// Out is what was printed.
var Out []byte

var Stdout = &File{std: true, path: "/dev/stdout", flag: O_WRONLY}
var Stderr = &File{std: true, path: "/dev/stderr", flag: O_WRONLY}
var Stdin = &File{node: &Node{}, path: "/dev/stdin"}

// KeepOutput makes printed text available in Out.
var KeepOutput bool

func WriteStdout(s string) int {
	if KeepOutput {
		Out = append(Out, s...)
	}
	return len(s)
}
