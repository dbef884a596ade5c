package zz

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// The virtual file system: absolute path -> content, directories are implied
// by the files below them or made with Mkdir.
type vnode struct {
	dir     bool
	content string
	maybe   bool // it is only there if there is true
	there   bool
	next    *vnode // what else may be at the path
}

var vfs = map[string]*vnode{}

// WriteFile creates a file (a scratch file when run natively).
func WriteFile(path, content string) {
	if Symbolic() {
		mkParents(path)
		vfs[path] = &vnode{content: content}
		return
	}
	guard(path)
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := ioutil.WriteFile(path, []byte(content), 0644); err != nil {
		panic(err)
	}
}

// WriteFileIf creates a file if cond is true. The engine decides cond only when
// the file is looked at. The directories above it have to be made with MkdirIf
// or Mkdir.
func WriteFileIf(cond bool, path, content string) {
	if Symbolic() {
		vfs[path] = &vnode{content: content, maybe: true, there: cond, next: vfs[path]}
		return
	}
	if cond {
		WriteFile(path, content)
	}
}

// MkdirIf creates a directory if cond is true.
func MkdirIf(cond bool, path string) {
	if Symbolic() {
		vfs[path] = &vnode{dir: true, maybe: true, there: cond, next: vfs[path]}
		return
	}
	if cond {
		Mkdir(path)
	}
}

// vnodeAt is the node at a clean path.
func vnodeAt(path string) *vnode {
	for n := vfs[path]; n != nil; n = n.next {
		if !n.maybe || Fork(n.there) {
			return n
		}
	}
	return nil
}

// Mkdir creates a directory.
func Mkdir(path string) {
	if Symbolic() {
		mkParents(path)
		vfs[path] = &vnode{dir: true}
		return
	}
	guard(path)
	os.MkdirAll(path, 0755)
}

func guard(path string) {
	if root == "" || !strings.HasPrefix(path+"/", root+"/") {
		panic("refusing to write outside the scratch directory: " + path)
	}
}

func mkParents(path string) {
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '/' {
			p := path[:i]
			if vfs[p] == nil {
				vfs[p] = &vnode{dir: true}
			}
		}
	}
}

func vlookup(op, path string) (*vnode, error) {
	if path == "" {
		return nil, &os.PathError{Op: op, Path: path, Err: syscall.ENOENT}
	}
	p := path
	if p[0] != '/' {
		p = Root() + "/" + p
	}
	p = filepath.Clean(p)
	if p == "/" {
		return &vnode{dir: true}, nil
	}
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return nil, &os.PathError{Op: op, Path: path, Err: syscall.EINVAL}
		}
	}
	for i := 1; i < len(p); i++ {
		if p[i] == '/' {
			n := vnodeAt(p[:i])
			if n == nil {
				return nil, &os.PathError{Op: op, Path: path, Err: syscall.ENOENT}
			}
			if !n.dir {
				return nil, &os.PathError{Op: op, Path: path, Err: syscall.ENOTDIR}
			}
		}
	}
	n := vnodeAt(p)
	if n == nil {
		return nil, &os.PathError{Op: op, Path: path, Err: syscall.ENOENT}
	}
	if !n.dir && path[len(path)-1] == '/' {
		return nil, &os.PathError{Op: op, Path: path, Err: syscall.ENOTDIR}
	}
	return n, nil
}

type finfo struct {
	name string
	n    *vnode
}

func (f *finfo) Name() string { return f.name }
func (f *finfo) Size() int64  { return int64(len(f.n.content)) }
func (f *finfo) Mode() os.FileMode {
	if f.n.dir {
		return os.ModeDir | 0755
	}
	return 0644
}
func (f *finfo) ModTime() time.Time { return time.Time{} }
func (f *finfo) IsDir() bool        { return f.n.dir }
func (f *finfo) Sys() interface{}   { return nil }

// OsStat models os.Stat on the virtual file system.
func OsStat(path string) (os.FileInfo, error) {
	n, err := vlookup("stat", path)
	if err != nil {
		return nil, err
	}
	return &finfo{filepath.Base(path), n}, nil
}

// OsReadFile models os.ReadFile.
func OsReadFile(path string) ([]byte, error) {
	n, err := vlookup("open", path)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, &os.PathError{Op: "read", Path: path, Err: syscall.EISDIR}
	}
	return []byte(n.content), nil
}

// OsGetwd models os.Getwd.
func OsGetwd() (string, error) { return Root(), nil }

// OsGetenv models os.Getenv.
func OsGetenv(string) string { return "" }

// EvalSymlinks models filepath.EvalSymlinks (no links exist).
func EvalSymlinks(path string) (string, error) {
	if _, err := vlookup("lstat", path); err != nil {
		return "", err
	}
	return filepath.Clean(path), nil
}
