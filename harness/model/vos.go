//go:build symbolic

package model

import (
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/internal/zzverif/sym"
)

// An in-memory file system with Unix semantics for one unprivileged user.

const maxFile = 1 << 43

type node struct {
	ino    uint64
	mode   fs.FileMode // type and permission bits
	data   []byte      // always maxFile long
	size   int64
	target string
	names  []string
	kids   []*node
	nlink  int
	writes int  // content modifications
	wopens int  // opens for writing
	fail   bool // reads at or beyond failAt fail with EIO
	failAt int64
}

type vfile struct {
	n      *node
	path   string
	pos    int64
	r, w   bool
	app    bool
	std    int // 1: stdout, 2: stderr
	closed bool
}

var (
	root   *node
	work   *node
	inos   uint64
	handle []*vfile
	osf    []*os.File
	// StdBuf holds what was written to standard output and error.
	StdBuf [3][]byte
)

func newNode(mode fs.FileMode) *node {
	inos++
	n := &node{ino: inos, mode: mode, nlink: 1}
	if mode.IsRegular() {
		n.data = make([]byte, maxFile)
	}
	return n
}

func (n *node) isDir() bool  { return n.mode&fs.ModeDir != 0 }
func (n *node) isLink() bool { return n.mode&fs.ModeSymlink != 0 }

func (n *node) find(name string) *node {
	for i, x := range n.names {
		if sym.EqStr(x, name) {
			return n.kids[i]
		}
	}
	return nil
}

func (n *node) add(name string, k *node) {
	n.names = append(n.names, name)
	n.kids = append(n.kids, k)
}

func (n *node) remove(k *node) {
	for i, x := range n.kids {
		if x == k {
			n.names = append(append([]string(nil), n.names[:i]...), n.names[i+1:]...)
			n.kids = append(append([]*node(nil), n.kids[:i]...), n.kids[i+1:]...)
			return
		}
	}
}

const Work = "/w"

func init() {
	root = newNode(fs.ModeDir | 0755)
	work = newNode(fs.ModeDir | 0755)
	tmp := newNode(fs.ModeDir | 0777)
	root.add("w", work)
	root.add("tmp", tmp)
	for i := 0; i < 3; i++ {
		f := new(os.File)
		osf = append(osf, f)
		handle = append(handle, &vfile{std: i, r: i == 0, w: i > 0, path: []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}[i]})
	}
	os.Stdin, os.Stdout, os.Stderr = osf[0], osf[1], osf[2]
}

func fileOf(f *os.File) *vfile {
	for i, x := range osf {
		if x == f {
			if handle[i].closed {
				return nil
			}
			return handle[i]
		}
	}
	return nil
}

func newFile(v *vfile) *os.File {
	f := new(os.File)
	osf = append(osf, f)
	handle = append(handle, v)
	return f
}

type where struct {
	dir  *node
	name string
	n    *node // nil: does not exist
}

// walk resolves a path. A trailing slash is not distinguished.
func walk(path string, follow bool) (where, error) { return walkFrom(work, path, follow, 0) }

func walkFrom(cur *node, path string, follow bool, depth int) (where, error) {
	var w where
	if len(path) == 0 {
		return w, syscall.ENOENT
	}
	if strings.Contains(path, "\x00") {
		return w, syscall.EINVAL
	}
	if depth > 40 {
		return w, syscall.ELOOP
	}
	if path[0] == '/' {
		cur = root
	}
	w.n = cur
	w.dir = cur
	for len(path) > 0 {
		i := strings.IndexByte(path, '/')
		comp := path
		if i >= 0 {
			comp = path[:i]
			path = path[i+1:]
		} else {
			path = ""
		}
		if len(comp) == 0 {
			continue
		}
		if w.n == nil {
			return w, syscall.ENOENT
		}
		if !w.n.isDir() {
			return w, syscall.ENOTDIR
		}
		if w.n.mode&0100 == 0 {
			return w, syscall.EACCES
		}
		if comp == "." {
			continue
		}
		if comp == ".." {
			w = where{dir: parentOf(w.n), n: parentOf(w.n)}
			continue
		}
		if len(comp) > 255 {
			return w, syscall.ENAMETOOLONG
		}
		w = where{dir: w.n, name: comp, n: w.n.find(comp)}
		last := true
		for j := 0; j < len(path); j++ {
			if path[j] != '/' {
				last = false
				break
			}
		}
		if w.n != nil && w.n.isLink() && (follow || !last) {
			t, err := walkFrom(w.dir, w.n.target, true, depth+1)
			if err != nil {
				return t, err
			}
			w = t
		}
	}
	return w, nil
}

func parentOf(n *node) *node {
	if n == root {
		return root
	}
	var look func(d *node) *node
	look = func(d *node) *node {
		for _, k := range d.kids {
			if k == n {
				return d
			}
			if k.isDir() {
				if p := look(k); p != nil {
					return p
				}
			}
		}
		return nil
	}
	if p := look(root); p != nil {
		return p
	}
	return root
}

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

//verif:replace os.OpenFile
func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	f, err := openAt(name, flag, perm)
	if err != nil {
		return nil, perr("open", name, err)
	}
	return f, nil
}

func openAt(name string, flag int, perm os.FileMode) (*os.File, error) {
	flag = int(sym.Concretize(uint64(flag)))
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	excl := flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0
	nofollow := flag&syscall.O_NOFOLLOW != 0
	w, err := walk(name, !excl && !nofollow)
	if err != nil {
		return nil, err
	}
	if w.n != nil && excl {
		return nil, syscall.EEXIST
	}
	if w.n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		if w.dir.mode&0200 == 0 {
			return nil, syscall.EACCES
		}
		w.n = newNode(perm.Perm() &^ 022)
		w.dir.add(w.name, w.n)
	} else {
		if w.n.isLink() {
			return nil, syscall.ELOOP
		}
		if w.n.isDir() {
			if acc != os.O_RDONLY || flag&os.O_CREATE != 0 {
				return nil, syscall.EISDIR
			}
		} else if flag&syscall.O_DIRECTORY != 0 {
			return nil, syscall.ENOTDIR
		}
		if acc != os.O_WRONLY && w.n.mode&0400 == 0 {
			return nil, syscall.EACCES
		}
		// O_TRUNC needs write permission as well
		if (acc != os.O_RDONLY || flag&os.O_TRUNC != 0) && w.n.mode&0200 == 0 {
			return nil, syscall.EACCES
		}
		if flag&os.O_TRUNC != 0 && w.n.mode.IsRegular() {
			w.n.wopens++
			w.n.writes++
			w.n.data = make([]byte, maxFile)
			w.n.size = 0
		}
	}
	if acc != os.O_RDONLY {
		w.n.wopens++
	}
	v := &vfile{n: w.n, path: name, r: acc != os.O_WRONLY, w: acc != os.O_RDONLY, app: flag&os.O_APPEND != 0}
	return newFile(v), nil
}

//verif:replace os.Open
func osOpen(name string) (*os.File, error) { return osOpenFile(name, os.O_RDONLY, 0) }

//verif:replace os.Create
func osCreate(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//verif:replace (*os.File).Name
func fileName(f *os.File) string {
	if v := fileOf(f); v != nil {
		return v.path
	}
	return ""
}

//verif:replace (*os.File).Fd
func fileFd(f *os.File) uintptr {
	for i, x := range osf {
		if x == f && !handle[i].closed {
			return uintptr(i)
		}
	}
	return ^uintptr(0)
}

//verif:replace (*os.File).Close
func fileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil {
		return &fs.PathError{Op: "close", Path: "", Err: os.ErrClosed}
	}
	v.closed = true
	return nil
}

func (v *vfile) pread(b []byte, off int64) (int, error) {
	if !v.r {
		return 0, syscall.EBADF
	}
	if v.n == nil {
		return 0, nil
	}
	if v.n.isDir() {
		return 0, syscall.EISDIR
	}
	if len(b) == 0 || off >= v.n.size {
		if v.n.fail && off >= v.n.failAt && len(b) > 0 && off < v.n.size {
			return 0, syscall.EIO
		}
		return 0, nil
	}
	n := len(b)
	if int64(n) > v.n.size-off {
		n = int(v.n.size - off)
	}
	if v.n.fail && v.n.failAt < off+int64(n) {
		if v.n.failAt <= off {
			return 0, syscall.EIO
		}
		n = int(v.n.failAt - off)
	}
	copy(b[:n], v.n.data[off:off+int64(n)])
	return n, nil
}

//verif:replace (*os.File).ReadAt
func fileReadAt(f *os.File, b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil {
		return 0, perr("read", "", os.ErrClosed)
	}
	if off < 0 {
		return 0, perr("readat", v.path, &plainError{"negative offset"})
	}
	n := 0
	for len(b) > 0 {
		m, err := v.pread(b, off)
		if err != nil {
			return n, perr("read", v.path, err)
		}
		if m == 0 {
			return n, io.EOF
		}
		n += m
		if m == len(b) {
			break
		}
		b = b[m:]
		off += int64(m)
	}
	return n, nil
}

//verif:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil {
		return 0, perr("read", "", os.ErrClosed)
	}
	n, err := v.pread(b, v.pos)
	v.pos += int64(n)
	if err != nil {
		return n, perr("read", v.path, err)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (v *vfile) pwrite(b []byte, off int64) (int, error) {
	if !v.w {
		return 0, syscall.EBADF
	}
	if v.std > 0 {
		StdBuf[v.std] = append(StdBuf[v.std], b...)
		return len(b), nil
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off > maxFile-int64(len(b)) {
		return 0, syscall.EFBIG
	}
	v.n.writes++
	copy(v.n.data[off:off+int64(len(b))], b)
	if e := off + int64(len(b)); e > v.n.size {
		v.n.size = e
	}
	return len(b), nil
}

//verif:replace (*os.File).WriteAt
func fileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil {
		return 0, perr("write", "", os.ErrClosed)
	}
	if v.app {
		return 0, &plainError{"os: invalid use of WriteAt on file opened with O_APPEND"}
	}
	if off < 0 {
		return 0, perr("writeat", v.path, &plainError{"negative offset"})
	}
	n, err := v.pwrite(b, off)
	if err != nil {
		return n, perr("write", v.path, err)
	}
	return n, nil
}

//verif:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil {
		return 0, perr("write", "", os.ErrClosed)
	}
	if v.app {
		v.pos = v.n.size
	}
	n, err := v.pwrite(b, v.pos)
	v.pos += int64(n)
	if err != nil {
		return n, perr("write", v.path, err)
	}
	return n, nil
}

//verif:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(b []byte) (int, error) { return o.r.Read(b) }

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(b []byte) (int, error) { return o.w.Write(b) }

//verif:replace (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

//verif:replace (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (int64, error) { return io.Copy(w, onlyReader{f}) }

//verif:replace (*os.File).Seek
func fileSeek(f *os.File, off int64, whence int) (int64, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil {
		return 0, perr("seek", "", os.ErrClosed)
	}
	p := off
	switch whence {
	case io.SeekCurrent:
		p += v.pos
	case io.SeekEnd:
		p += v.n.size
	}
	if p < 0 {
		return 0, perr("seek", v.path, syscall.EINVAL)
	}
	v.pos = p
	return p, nil
}

func (n *node) truncate(size int64) error {
	if size < 0 {
		return syscall.EINVAL
	}
	if size > maxFile {
		return syscall.EFBIG
	}
	n.writes++
	if size < n.size {
		d := make([]byte, maxFile)
		copy(d[:size], n.data[:size])
		n.data = d
	}
	n.size = size
	return nil
}

//verif:replace (*os.File).Truncate
func fileTruncate(f *os.File, size int64) error {
	if f == nil {
		return os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil {
		return perr("truncate", "", os.ErrClosed)
	}
	if !v.w {
		return perr("truncate", v.path, syscall.EINVAL)
	}
	if err := v.n.truncate(size); err != nil {
		return perr("truncate", v.path, err)
	}
	return nil
}

//verif:replace os.Truncate
func osTruncate(name string, size int64) error {
	w, err := walk(name, true)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err == nil && w.n.mode&0200 == 0 {
		err = syscall.EACCES
	}
	if err == nil && w.n.isDir() {
		err = syscall.EISDIR
	}
	if err == nil {
		err = w.n.truncate(size)
	}
	if err != nil {
		return perr("truncate", name, err)
	}
	return nil
}

//verif:replace (*os.File).Sync
func fileSync(f *os.File) error { return nil }

//verif:replace (*os.File).SetDeadline (*os.File).SetReadDeadline (*os.File).SetWriteDeadline
func fileSetDeadline(f *os.File, t time.Time) error { return nil }

//verif:replace (*os.File).Chmod
func fileChmod(f *os.File, m os.FileMode) error {
	v := fileOf(f)
	if v == nil {
		return os.ErrInvalid
	}
	v.n.mode = v.n.mode&^0777 | m.Perm()
	return nil
}

type finfo struct {
	name string
	n    *node
	size int64
	mode fs.FileMode
}

func (i *finfo) Name() string       { return i.name }
func (i *finfo) Size() int64        { return i.size }
func (i *finfo) Mode() fs.FileMode  { return i.mode }
func (i *finfo) ModTime() time.Time { return timeNow() }
func (i *finfo) IsDir() bool        { return i.mode.IsDir() }
func (i *finfo) Sys() any           { st := &syscall.Stat_t{}; i.n.stat(st); return st }

type dirent struct{ finfo }

func (d *dirent) Type() fs.FileMode          { return d.mode.Type() }
func (d *dirent) Info() (fs.FileInfo, error) { return &d.finfo, nil }

func info(name string, n *node) *finfo {
	size := n.size
	if n.isLink() {
		size = int64(len(n.target))
	}
	return &finfo{name, n, size, n.mode}
}

func (n *node) stat(st *syscall.Stat_t) {
	*st = syscall.Stat_t{Ino: n.ino, Nlink: uint64(n.nlink), Size: n.size, Blksize: 4096, Uid: 65534, Gid: 65534}
	st.Mode = uint32(n.mode.Perm())
	switch {
	case n.isDir():
		st.Mode |= syscall.S_IFDIR
	case n.isLink():
		st.Mode |= syscall.S_IFLNK
	default:
		st.Mode |= syscall.S_IFREG
	}
}

func baseName(p string) string {
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' && len(p) > 1 {
			return p[i+1:]
		}
	}
	return p
}

//verif:replace (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	v := fileOf(f)
	if v == nil || v.n == nil {
		return nil, perr("stat", "", os.ErrClosed)
	}
	return info(baseName(v.path), v.n), nil
}

func stat(op, name string, follow bool) (os.FileInfo, error) {
	w, err := walk(name, follow)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return nil, perr(op, name, err)
	}
	return info(baseName(name), w.n), nil
}

//verif:replace os.Stat
func osStat(name string) (os.FileInfo, error) { return stat("stat", name, true) }

//verif:replace os.Lstat
func osLstat(name string) (os.FileInfo, error) { return stat("lstat", name, false) }

//verif:replace os.SameFile
func osSameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*finfo)
	y, ok2 := b.(*finfo)
	return ok1 && ok2 && x.n == y.n
}

//verif:replace os.Mkdir
func osMkdir(name string, perm os.FileMode) error {
	w, err := walk(name, false)
	if err == nil && w.n != nil {
		err = syscall.EEXIST
	}
	if err == nil && w.dir.mode&0200 == 0 {
		err = syscall.EACCES
	}
	if err != nil {
		return perr("mkdir", name, err)
	}
	w.dir.add(w.name, newNode(fs.ModeDir|perm.Perm()&^022))
	return nil
}

//verif:replace os.MkdirAll
func osMkdirAll(path string, perm os.FileMode) error {
	if fi, err := osStat(path); err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	i := len(path)
	for i > 0 && path[i-1] == '/' {
		i--
	}
	for i > 0 && path[i-1] != '/' {
		i--
	}
	if i > 1 {
		if err := osMkdirAll(path[:i-1], perm); err != nil {
			return err
		}
	}
	err := osMkdir(path, perm)
	if err != nil {
		if fi, err1 := osLstat(path); err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

//verif:replace os.Remove
func osRemove(name string) error {
	w, err := walk(name, false)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err == nil && w.dir.mode&0200 == 0 {
		err = syscall.EACCES
	}
	if err == nil && w.n.isDir() && len(w.n.kids) > 0 {
		err = syscall.ENOTEMPTY
	}
	if err != nil {
		return perr("remove", name, err)
	}
	w.dir.remove(w.n)
	w.n.nlink--
	return nil
}

//verif:replace os.RemoveAll
func osRemoveAll(name string) error {
	w, err := walk(name, false)
	if err != nil || w.n == nil {
		return nil
	}
	w.dir.remove(w.n)
	return nil
}

//verif:replace os.Rename
func osRename(old, new string) error {
	a, err := walk(old, false)
	if err == nil && a.n == nil {
		err = syscall.ENOENT
	}
	var b where
	if err == nil {
		b, err = walk(new, false)
	}
	if err == nil && b.n != nil && b.n.isDir() && !a.n.isDir() {
		err = syscall.EISDIR
	}
	if err != nil {
		return &os.LinkError{Op: "rename", Old: old, New: new, Err: err}
	}
	if b.n == a.n && b.n != nil {
		return nil
	}
	if b.n != nil {
		b.dir.remove(b.n)
	}
	a.dir.remove(a.n)
	b.dir.add(b.name, a.n)
	return nil
}

//verif:replace os.Symlink
func osSymlink(old, new string) error {
	var err error
	if len(old) == 0 {
		err = syscall.ENOENT
	} else if len(old) <= 512 && strings.Contains(old, "\x00") {
		// longer targets are taken to have no zero byte unless their length
		// is fixed
		err = syscall.EINVAL
	} else if len(old) >= 4096 {
		err = syscall.ENAMETOOLONG
	}
	var w where
	if err == nil {
		w, err = walk(new, false)
	}
	if err == nil && w.n != nil {
		err = syscall.EEXIST
	}
	if err == nil && w.dir.mode&0200 == 0 {
		err = syscall.EACCES
	}
	if err != nil {
		return &os.LinkError{Op: "symlink", Old: old, New: new, Err: err}
	}
	n := newNode(fs.ModeSymlink | 0777)
	n.target = old
	w.dir.add(w.name, n)
	return nil
}

//verif:replace os.Link
func osLink(old, new string) error {
	a, err := walk(old, false)
	if err == nil && a.n == nil {
		err = syscall.ENOENT
	}
	var b where
	if err == nil {
		b, err = walk(new, false)
	}
	if err == nil && b.n != nil {
		err = syscall.EEXIST
	}
	if err != nil {
		return &os.LinkError{Op: "link", Old: old, New: new, Err: err}
	}
	a.n.nlink++
	b.dir.add(b.name, a.n)
	return nil
}

//verif:replace os.Readlink
func osReadlink(name string) (string, error) {
	w, err := walk(name, false)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !w.n.isLink() {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", name, err)
	}
	return w.n.target, nil
}

//verif:replace os.Chmod
func osChmod(name string, m os.FileMode) error {
	w, err := walk(name, true)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("chmod", name, err)
	}
	w.n.mode = w.n.mode&^0777 | m.Perm()
	return nil
}

// attributes notes a change of attributes that are not part of the model.
func attributes(op, name string, follow bool) error {
	w, err := walk(name, follow)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr(op, name, err)
	}
	w.n.writes++
	return nil
}

//verif:replace os.Chtimes
func osChtimes(name string, a, m time.Time) error { return attributes("chtimes", name, true) }

//verif:replace os.Chown
func osChown(name string, u, g int) error { return attributes("chown", name, true) }

//verif:replace os.Lchown
func osLchown(name string, u, g int) error { return attributes("lchown", name, false) }

//verif:replace (*os.File).Chown
func fileChown(f *os.File, u, g int) error {
	v := fileOf(f)
	if v == nil {
		return os.ErrInvalid
	}
	v.n.writes++
	return nil
}

//verif:replace os.ReadDir
func osReadDir(name string) ([]os.DirEntry, error) {
	w, err := walk(name, true)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err == nil && !w.n.isDir() {
		err = syscall.ENOTDIR
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	var out []os.DirEntry
	for i, k := range w.n.kids {
		out = append(out, &dirent{*info(w.n.names[i], k)})
	}
	// sorted by name
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].Name() < out[j-1].Name(); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out, nil
}

//verif:replace os.ReadFile
func osReadFile(name string) ([]byte, error) {
	f, err := osOpen(name)
	if err != nil {
		return nil, err
	}
	v := fileOf(f)
	b := make([]byte, v.n.size)
	n, err := fileReadAt(f, b, 0)
	fileClose(f)
	if err == io.EOF {
		err = nil
	}
	return b[:n], err
}

//verif:replace os.WriteFile
func osWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := osOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	fileClose(f)
	return err
}

//verif:replace os.Exit
func osExit(code int) { sym.Exit(code) }

//verif:replace os.Getwd
func osGetwd() (string, error) { return Work, nil }

//verif:replace os.Chdir
func osChdir(d string) error { sym.Unsupported("os.Chdir"); return nil }

//verif:replace os.TempDir
func osTempDir() string { return "/tmp" }

var temps int

//verif:replace os.CreateTemp
func osCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	temps++
	return osOpenFile(dir+"/"+strings.Replace(pattern, "*", "", 1)+sym.Dec(uint64(temps)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//verif:replace os.MkdirTemp
func osMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	temps++
	p := dir + "/" + strings.Replace(pattern, "*", "", 1) + sym.Dec(uint64(temps))
	return p, osMkdir(p, 0700)
}

//verif:replace os.Getuid os.Geteuid os.Getgid os.Getegid
func osGetuid() int { return 65534 }

//verif:replace os.Getpid os.Getppid
func osGetpid() int { return 4242 }

//verif:replace os.IsNotExist
func osIsNotExist(err error) bool { return errorsIs(err, fs.ErrNotExist) }

//verif:replace os.IsExist
func osIsExist(err error) bool { return errorsIs(err, fs.ErrExist) }

// system calls used directly

//verif:replace syscall.Stat
func sysStat(path string, st *syscall.Stat_t) error {
	w, err := walk(path, true)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return err
	}
	w.n.stat(st)
	return nil
}

//verif:replace syscall.Lstat
func sysLstat(path string, st *syscall.Stat_t) error {
	w, err := walk(path, false)
	if err == nil && w.n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return err
	}
	w.n.stat(st)
	return nil
}

func byFd(fd int) *vfile {
	if fd < 0 || fd >= len(handle) || handle[fd].closed {
		return nil
	}
	return handle[fd]
}

//verif:replace syscall.Fstat
func sysFstat(fd int, st *syscall.Stat_t) error {
	v := byFd(fd)
	if v == nil || v.n == nil {
		return syscall.EBADF
	}
	v.n.stat(st)
	return nil
}

//verif:replace syscall.Pread
func sysPread(fd int, b []byte, off int64) (int, error) {
	v := byFd(fd)
	if v == nil {
		return -1, syscall.EBADF
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	n, err := v.pread(b, off)
	if err != nil {
		return -1, err
	}
	return n, nil
}

//verif:replace syscall.Pwrite
func sysPwrite(fd int, b []byte, off int64) (int, error) {
	v := byFd(fd)
	if v == nil {
		return -1, syscall.EBADF
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	n, err := v.pwrite(b, off)
	if err != nil {
		return -1, err
	}
	return n, nil
}

//verif:replace syscall.Ftruncate
func sysFtruncate(fd int, size int64) error {
	v := byFd(fd)
	if v == nil {
		return syscall.EBADF
	}
	if !v.w {
		return syscall.EINVAL
	}
	return v.n.truncate(size)
}

//verif:replace syscall.Fsync
func sysFsync(fd int) error { return nil }

//verif:replace syscall.Dup
func sysDup(fd int) (int, error) {
	v := byFd(fd)
	if v == nil {
		return -1, syscall.EBADF
	}
	c := *v
	newFile(&c)
	return len(handle) - 1, nil
}

//verif:replace syscall.Close
func sysClose(fd int) error {
	v := byFd(fd)
	if v == nil {
		return syscall.EBADF
	}
	v.closed = true
	return nil
}

//verif:replace syscall.Fchmod
func sysFchmod(fd int, mode uint32) error {
	v := byFd(fd)
	if v == nil {
		return syscall.EBADF
	}
	v.n.mode = v.n.mode&^0777 | fs.FileMode(mode&0777)
	return nil
}

//verif:replace syscall.Fchown
func sysFchown(fd, u, g int) error {
	v := byFd(fd)
	if v == nil {
		return syscall.EBADF
	}
	v.n.writes++
	return nil
}

// Poison makes reads of the file fail from offset at on.
func Poison(path string, at int64) {
	w, err := walk(path, true)
	if err == nil && w.n != nil {
		w.n.fail, w.n.failAt = true, at
	}
}

// Writes tells how often the file was modified or opened for writing.
func Writes(path string) int {
	w, err := walk(path, true)
	if err != nil || w.n == nil {
		return -1
	}
	return w.n.writes + w.n.wopens
}

type watch struct {
	path   string
	n      *node
	writes int
	mode   fs.FileMode
}

var watches []watch

// Watch starts to observe a file.
func Watch(path string) {
	w, err := walk(path, false)
	if err != nil || w.n == nil {
		panic("harness environment: watch")
	}
	watches = append(watches, watch{path, w.n, w.n.writes + w.n.wopens, w.n.mode})
}

// Written tells whether the observed file was written, opened for writing,
// replaced, removed or changed its mode.
func Written(path string) bool {
	for _, x := range watches {
		if x.path == path {
			w, err := walk(path, false)
			return err != nil || w.n != x.n || x.n.writes+x.n.wopens != x.writes || x.n.mode != x.mode
		}
	}
	panic("harness environment: not watched")
}

// Mark and CloseFrom end a process: its handles are closed.
func Mark() int { return len(handle) }

func CloseFrom(n int) {
	for i := n; i < len(handle); i++ {
		handle[i].closed = true
	}
}
