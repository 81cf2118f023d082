package lens

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// vFS is a file system in memory with a budget of faults: while the budget
// lasts, any operation that changes something may fail, cleanly or half done.
type vFS struct {
	mu      sync.Mutex // for native replays with real threads only
	nodes   map[string]*vNode
	budget  int
	faults  int
	handles map[*os.File]*vHandle
	names   map[*os.File]string // also of closed files
	temps   int
	failed  string // path of the last operation that failed
	moved   bool   // that operation was a rename or removal
	slow    bool   // other goroutines may run while a file is truncated but not yet written
	badDir  string // directory whose entries cannot be read
	frozen  bool   // changes from now on are late
	late    bool
	kinds   bool  // a failure is an input/output error or a denied permission
	err     error // the last failure
}

type vNode struct {
	dir  bool
	data string
	link string
	perm fs.FileMode // 0: default
}

type vHandle struct {
	path string
	pos  int
	w    bool
}

var (
	vDisk   *vFS
	errVIO  = errors.New("input/output error")
	vfsFile = map[string]string{}
)

func vNewFS(files map[string]string) *vFS {
	f := &vFS{nodes: map[string]*vNode{"/": {dir: true}}, handles: map[*os.File]*vHandle{}, names: map[*os.File]string{}}
	for p, d := range files {
		f.mkdirs(filepath.Dir(p))
		f.nodes[p] = &vNode{data: d}
	}
	vDisk = f
	return f
}

func (f *vFS) mkdirs(d string) {
	for ; d != "/" && d != "."; d = filepath.Dir(d) {
		if f.nodes[d] == nil {
			f.nodes[d] = &vNode{dir: true}
		}
	}
}

// snapshot lists every file with its contents.
func (f *vFS) snapshot() map[string]string {
	out := map[string]string{}
	f.lock()
	defer f.unlock()
	for p, n := range f.nodes {
		switch {
		case n.dir:
			out[p] = "<dir>"
		case n.link != "":
			out[p] = "<link>" + n.link
		default:
			out[p] = n.data
		}
	}
	return out
}

func vSameFiles(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

// fault: 0 none, 1 the operation does nothing, 2 it stops half way.
func (f *vFS) fault(path string, half bool) int {
	if f.budget <= 0 {
		return 0
	}
	n := 2
	if half {
		n = 3
	}
	k := vChoose("fault", n)
	if k > 0 {
		f.err = errVIO
		if f.kinds && vBool("denied") {
			f.err = fs.ErrPermission
		}
		f.budget--
		f.faults++
		f.failed = filepath.Clean(path)
	}
	return k
}

func vPErr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

func (f *vFS) lock() {
	if !vSymbolic() {
		f.mu.Lock()
	}
}

func (f *vFS) unlock() {
	if !vSymbolic() {
		f.mu.Unlock()
	}
}

func (f *vFS) get(path string) *vNode {
	f.lock()
	defer f.unlock()
	return f.nodes[filepath.Clean(path)]
}

func (f *vFS) set(path string, n *vNode) {
	f.lock()
	defer f.unlock()
	f.late = f.late || f.frozen
	f.nodes[filepath.Clean(path)] = n
}

func (f *vFS) write(n *vNode, data string) {
	f.lock()
	defer f.unlock()
	f.late = f.late || f.frozen
	n.data = data
}

func (f *vFS) del(path string) {
	f.lock()
	defer f.unlock()
	f.late = f.late || f.frozen
	delete(f.nodes, filepath.Clean(path))
}

func (f *vFS) handle(h *os.File) *vHandle {
	f.lock()
	defer f.unlock()
	return f.handles[h]
}

func (f *vFS) open(h *os.File, v *vHandle) {
	f.lock()
	defer f.unlock()
	if v == nil {
		delete(f.handles, h)
		return
	}
	f.handles[h] = v
	f.names[h] = v.path
}

func (f *vFS) parentOK(path string) bool {
	n := f.get(filepath.Dir(filepath.Clean(path)))
	return n != nil && n.dir
}

func (f *vFS) children(dir string) []string {
	var out []string
	dir = filepath.Clean(dir)
	f.lock()
	defer f.unlock()
	for p := range f.nodes {
		if p != dir && filepath.Dir(p) == dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

type vInfo struct {
	name string
	n    *vNode
}

func (i vInfo) Name() string { return i.name }
func (i vInfo) Size() int64  { return int64(len(i.n.data)) }
func (i vInfo) Mode() fs.FileMode {
	switch {
	case i.n.dir && i.n.perm != 0:
		return fs.ModeDir | i.n.perm
	case i.n.dir:
		return fs.ModeDir | 0o755
	case i.n.link == "" && i.n.perm != 0:
		return i.n.perm
	case i.n.link != "":
		return fs.ModeSymlink | 0o777
	}
	return 0o644
}
func (i vInfo) ModTime() time.Time         { return time.Time{} }
func (i vInfo) IsDir() bool                { return i.n.dir }
func (i vInfo) Sys() any                   { return nil }
func (i vInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i vInfo) Info() (fs.FileInfo, error) { return i, nil }

func (f *vFS) info(path string) vInfo { return vInfo{filepath.Base(path), f.get(path)} }

// follow resolves links at the end of the path.
func (f *vFS) follow(name string) string {
	name = filepath.Clean(name)
	for i := 0; i < 4; i++ {
		n := f.get(name)
		if n == nil || n.link == "" {
			break
		}
		t := n.link
		if !filepath.IsAbs(t) {
			t = filepath.Join(filepath.Dir(name), t)
		}
		name = filepath.Clean(t)
	}
	return name
}

func vstub_os__Stat(name string) (os.FileInfo, error) {
	n := vDisk.get(vDisk.follow(name))
	if n == nil {
		return nil, vPErr("stat", name, fs.ErrNotExist)
	}
	return vInfo{filepath.Base(name), n}, nil
}

func vstub_os__Lstat(name string) (os.FileInfo, error) {
	if vDisk.get(name) == nil {
		return nil, vPErr("lstat", name, fs.ErrNotExist)
	}
	return vDisk.info(name), nil
}

func vstub_os__Readlink(name string) (string, error) {
	n := vDisk.get(name)
	if n == nil || n.link == "" {
		return "", vPErr("readlink", name, fs.ErrInvalid)
	}
	return n.link, nil
}

func vstub_os__Symlink(target, name string) error {
	if vDisk.get(name) != nil {
		return vPErr("symlink", name, fs.ErrExist)
	}
	if vDisk.fault(name, false) != 0 {
		return vPErr("symlink", name, vDisk.err)
	}
	vDisk.set(name, &vNode{link: target})
	return nil
}

func vstub_os__Open(name string) (*os.File, error) {
	name = vDisk.follow(name)
	n := vDisk.get(name)
	if n == nil {
		return nil, vPErr("open", name, fs.ErrNotExist)
	}
	if vDisk.fault(name, false) != 0 {
		return nil, vPErr("open", name, vDisk.err)
	}
	h := &os.File{}
	vDisk.open(h, &vHandle{path: filepath.Clean(name)})
	return h, nil
}

func vstub_os__Create(name string) (*os.File, error) {
	return vstub_os__OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func vstub_os__OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE) == 0 {
		return vstub_os__Open(name)
	}
	if flag&os.O_EXCL == 0 {
		name = vDisk.follow(name)
	}
	if !vDisk.parentOK(name) {
		return nil, vPErr("open", name, fs.ErrNotExist)
	}
	n := vDisk.get(name)
	if n == nil && flag&os.O_CREATE == 0 {
		return nil, vPErr("open", name, fs.ErrNotExist)
	}
	if n != nil && n.dir {
		return nil, vPErr("open", name, fs.ErrInvalid)
	}
	if n != nil && flag&os.O_EXCL != 0 {
		return nil, vPErr("open", name, fs.ErrExist)
	}
	if vDisk.fault(name, false) != 0 {
		return nil, vPErr("open", name, vDisk.err)
	}
	if n == nil {
		vDisk.set(name, &vNode{})
	} else if flag&os.O_TRUNC != 0 {
		vDisk.write(n, "")
	}
	h := &os.File{}
	vh := &vHandle{path: filepath.Clean(name), w: true}
	if flag&os.O_APPEND != 0 && n != nil {
		vh.pos = len(n.data)
	}
	vDisk.open(h, vh)
	return h, nil
}

func vstub_os__File__Close(h *os.File) error {
	if vDisk.handle(h) == nil {
		return fs.ErrClosed
	}
	vDisk.open(h, nil)
	return nil
}

func vstub_os__File__Sync(h *os.File) error {
	if vDisk.fault(vDisk.handle(h).path, false) != 0 {
		return vPErr("sync", vDisk.handle(h).path, vDisk.err)
	}
	return nil
}

func vstub_os__File__Name(h *os.File) string {
	vDisk.lock()
	defer vDisk.unlock()
	return vDisk.names[h]
}

func vstub_os__File__Write(h *os.File, b []byte) (int, error) {
	vh := vDisk.handle(h)
	if vh == nil {
		return 0, fs.ErrClosed
	}
	n := vDisk.get(vh.path)
	k := vDisk.fault(vh.path, true)
	if k == 1 {
		return 0, vPErr("write", vh.path, vDisk.err)
	}
	if k == 2 {
		b = b[:len(b)/2]
	}
	if n != nil {
		vDisk.write(n, n.data+string(b))
	}
	if k == 2 {
		return len(b), vPErr("write", vh.path, vDisk.err)
	}
	return len(b), nil
}

func vstub_os__File__WriteString(h *os.File, s string) (int, error) {
	return vstub_os__File__Write(h, []byte(s))
}

func vstub_os__File__Read(h *os.File, b []byte) (int, error) {
	vh := vDisk.handle(h)
	if vh == nil {
		return 0, fs.ErrClosed
	}
	n := vDisk.get(vh.path)
	if n == nil || vh.pos >= len(n.data) {
		return 0, io.EOF
	}
	k := copy(b, n.data[vh.pos:])
	vh.pos += k
	return k, nil
}

func vstub_os__File__Chmod(h *os.File, mode os.FileMode) error { return nil }

func vstub_io__Copy(dst io.Writer, src io.Reader) (int64, error) {
	out, ok1 := dst.(*os.File)
	in, ok2 := src.(*os.File)
	if !ok1 || !ok2 {
		return io.Copy(dst, src)
	}
	vh := vDisk.handle(in)
	n := vDisk.get(vh.path)
	if n == nil {
		return 0, nil
	}
	k, err := vstub_os__File__Write(out, []byte(n.data[vh.pos:]))
	return int64(k), err
}

func vstub_io__CopyBuffer(dst io.Writer, src io.Reader, buf []byte) (int64, error) {
	_, ok1 := dst.(*os.File)
	_, ok2 := src.(*os.File)
	if !ok1 || !ok2 {
		return io.CopyBuffer(dst, src, buf)
	}
	return vstub_io__Copy(dst, src)
}

func vstub_io__WriteString(w io.Writer, s string) (int, error) {
	if h, ok := w.(*os.File); ok && vDisk != nil {
		return vstub_os__File__Write(h, []byte(s))
	}
	return io.WriteString(w, s)
}

func vstub_os__File__Stat(h *os.File) (os.FileInfo, error) {
	vh := vDisk.handle(h)
	if vh == nil {
		return nil, fs.ErrClosed
	}
	return vstub_os__Stat(vh.path)
}

func vstub_os__File__ReadFrom(h *os.File, src io.Reader) (int64, error) {
	b, err := vstub_io__ReadAll(src)
	if err != nil {
		return 0, err
	}
	k, err := vstub_os__File__Write(h, b)
	return int64(k), err
}

func vstub_os__File__WriteTo(h *os.File, dst io.Writer) (int64, error) {
	vh := vDisk.handle(h)
	if vh == nil {
		return 0, fs.ErrClosed
	}
	n := vDisk.get(vh.path)
	if n == nil {
		return 0, nil
	}
	k, err := dst.Write([]byte(n.data[vh.pos:]))
	vh.pos += k
	return int64(k), err
}

func vstub_io__ReadAll(src io.Reader) ([]byte, error) {
	in, ok := src.(*os.File)
	if !ok {
		return io.ReadAll(src)
	}
	return []byte(vDisk.get(vDisk.handle(in).path).data), nil
}

func vstub_os__ReadFile(name string) ([]byte, error) {
	name = vDisk.follow(name)
	n := vDisk.get(name)
	if n == nil {
		return nil, vPErr("open", name, fs.ErrNotExist)
	}
	if vDisk.fault(name, false) != 0 {
		return nil, vPErr("read", name, vDisk.err)
	}
	return []byte(n.data), nil
}

func vstub_os__WriteFile(name string, data []byte, perm os.FileMode) error {
	name = vDisk.follow(name)
	if !vDisk.parentOK(name) {
		return vPErr("open", name, fs.ErrNotExist)
	}
	k := vDisk.fault(name, true)
	if k == 1 {
		return vPErr("open", name, vDisk.err)
	}
	n := vDisk.get(name)
	if n == nil {
		n = &vNode{}
		vDisk.set(name, n)
	}
	if vDisk.slow {
		n.data = ""
		vYield()
	}
	n.data = string(data)
	if k == 2 {
		n.data = n.data[:len(n.data)/2]
		return vPErr("write", name, vDisk.err)
	}
	return nil
}

func vstub_os__Remove(name string) error {
	n := vDisk.get(name)
	if n == nil {
		return vPErr("remove", name, fs.ErrNotExist)
	}
	if n.dir && len(vDisk.children(name)) > 0 {
		return vPErr("remove", name, fs.ErrInvalid)
	}
	if vDisk.fault(name, false) != 0 {
		vDisk.moved = true
		return vPErr("remove", name, vDisk.err)
	}
	vDisk.del(name)
	return nil
}

func vstub_os__RemoveAll(name string) error {
	if vDisk.fault(name, false) != 0 {
		vDisk.moved = true
		return vPErr("remove", name, vDisk.err)
	}
	name = filepath.Clean(name)
	for p := range vDisk.snapshot() {
		if p == name || strings.HasPrefix(p, name+"/") {
			vDisk.del(p)
		}
	}
	return nil
}

func vstub_os__Rename(from, to string) error {
	n := vDisk.get(from)
	if n == nil {
		return vPErr("rename", from, fs.ErrNotExist)
	}
	if !vDisk.parentOK(to) {
		return vPErr("rename", to, fs.ErrNotExist)
	}
	if vDisk.fault(to, false) != 0 {
		vDisk.moved = true
		return vPErr("rename", from, vDisk.err)
	}
	vDisk.del(from)
	vDisk.set(to, n)
	return nil
}

func vstub_os__MkdirAll(name string, perm os.FileMode) error {
	if n := vDisk.get(name); n != nil {
		if n.dir {
			return nil
		}
		return vPErr("mkdir", name, fs.ErrExist)
	}
	if vDisk.fault(name, false) != 0 {
		return vPErr("mkdir", name, vDisk.err)
	}
	vDisk.mkdirs(filepath.Clean(name))
	return nil
}

func vstub_os__Mkdir(name string, perm os.FileMode) error {
	if vDisk.get(name) != nil {
		return vPErr("mkdir", name, fs.ErrExist)
	}
	return vstub_os__MkdirAll(name, perm)
}

func vstub_os__MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	if vDisk.fault(dir, false) != 0 {
		return "", vPErr("mkdirtemp", dir, vDisk.err)
	}
	vDisk.temps++
	p := filepath.Join(dir, strings.ReplaceAll(pattern, "*", "")+"t"+string(rune('0'+vDisk.temps)))
	vDisk.mkdirs(p)
	return p, nil
}

func vstub_os__CreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	vDisk.temps++
	return vstub_os__OpenFile(filepath.Join(dir, strings.ReplaceAll(pattern, "*", "")+"t"+string(rune('0'+vDisk.temps))), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func vstub_os__Chmod(name string, mode os.FileMode) error {
	name = vDisk.follow(name)
	if vDisk.get(name) == nil {
		return vPErr("chmod", name, fs.ErrNotExist)
	}
	if vDisk.fault(name, false) != 0 {
		return vPErr("chmod", name, vDisk.err)
	}
	n := vDisk.get(name)
	vDisk.lock()
	defer vDisk.unlock()
	vDisk.late = vDisk.late || vDisk.frozen
	n.perm = mode.Perm()
	return nil
}

func vstub_os__ReadDir(name string) ([]os.DirEntry, error) {
	name = vDisk.follow(name)
	n := vDisk.get(name)
	if n == nil || !n.dir {
		return nil, vPErr("open", name, fs.ErrNotExist)
	}
	var out []os.DirEntry
	for _, p := range vDisk.children(name) {
		out = append(out, vDisk.info(p))
	}
	return out, nil
}

func vstub_path_S_filepath__Glob(pattern string) ([]string, error) {
	var out []string
	for _, p := range vDisk.children(filepath.Dir(pattern)) {
		ok, err := filepath.Match(filepath.Base(pattern), filepath.Base(p))
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, p)
		}
	}
	return out, nil
}

func vstub_path_S_filepath__Walk(root string, fn filepath.WalkFunc) error {
	n := vDisk.get(root)
	if n == nil {
		return fn(root, nil, vPErr("lstat", root, fs.ErrNotExist))
	}
	err := vWalk(root, fn)
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func vWalk(path string, fn filepath.WalkFunc) error {
	i := vDisk.info(path)
	var derr error
	if i.IsDir() && path == vDisk.badDir {
		derr = vPErr("open", path, vDisk.err)
	}
	err := fn(path, i, derr)
	if derr != nil {
		return err
	}
	if !i.IsDir() {
		return err
	}
	if err == filepath.SkipDir {
		return nil
	}
	if err != nil {
		return err
	}
	for _, c := range vDisk.children(path) {
		if err := vWalk(c, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func vstub_path_S_filepath__WalkDir(root string, fn fs.WalkDirFunc) error {
	if vDisk.get(root) == nil {
		return fn(root, nil, vPErr("lstat", root, fs.ErrNotExist))
	}
	err := vWalk(root, func(path string, info os.FileInfo, err error) error {
		var d fs.DirEntry
		if info != nil {
			d = info.(vInfo)
		}
		return fn(path, d, err)
	})
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func vstub_path_S_filepath__EvalSymlinks(p string) (string, error) {
	p = vDisk.follow(p)
	if vDisk.get(p) == nil {
		return "", vPErr("lstat", p, fs.ErrNotExist)
	}
	return p, nil
}

// Parsing a file by name reads the modelled disk.
func vstub_go_S_parser__ParseFile(fset *token.FileSet, filename string, src any, mode parser.Mode) (*ast.File, error) {
	if src == nil {
		n := vDisk.get(vDisk.follow(filename))
		if n == nil {
			return nil, vPErr("open", filename, fs.ErrNotExist)
		}
		src = n.data
	}
	return parser.ParseFile(fset, filename, src, mode)
}
