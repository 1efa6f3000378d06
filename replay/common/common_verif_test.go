package common

// Shared by the bounded replay harnesses: a source file system with faults,
// readers and writers with faults, and a generator of trees.

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

func vSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vScale(q, t int) int {
	if vThorough() {
		return t
	}
	return q
}

func vRand(salt int64) *rand.Rand { return rand.New(rand.NewSource(vSeed()*1000003 + salt)) }

var vStats = struct {
	sync.Mutex
	N map[string]int
}{N: map[string]int{}}

func vCount(k string, n int) {
	vStats.Lock()
	vStats.N[k] += n
	vStats.Unlock()
}

func TestMain(m *testing.M) {
	c := m.Run()
	if f := os.Getenv("VERIF_STATS"); f != "" {
		b, _ := json.Marshal(vStats.N)
		os.WriteFile(f, b, 0o644)
	}
	os.Exit(c)
}

// vBad reports a failing input.
func vBad(t *testing.T, input, f string, a ...any) {
	t.Helper()
	t.Fatalf("FAILING INPUT: %s\n%s", input, fmt.Sprintf(f, a...))
}

// vWithin fails the test if f does not end in time.
func vWithin(t *testing.T, d time.Duration, input func() string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case p := <-done:
		if p != nil {
			vBad(t, input(), "panic: %v", p)
		}
	case <-time.After(d):
		vBad(t, input(), "no result after %v", d)
	}
}

// ---------- source file systems ----------

var errInjected = errors.New("injected fault")

// vFault is one of the ways in which an operation fails.
func vFault(k int) error {
	if k < 0 {
		k = -k
	}
	switch k % 12 {
	case 1:
		return fs.ErrPermission
	case 2:
		return &fs.PathError{Op: "op", Path: "p", Err: syscall.EACCES}
	case 3:
		return fs.ErrNotExist
	case 4:
		return io.ErrUnexpectedEOF
	case 5:
		return syscall.EIO
	case 6:
		return fs.ErrInvalid
	case 7:
		return fs.ErrClosed
	case 8:
		return syscall.ENOENT
	case 9:
		return errors.ErrUnsupported
	case 10:
		return io.ErrShortWrite
	case 11:
		return os.ErrDeadlineExceeded
	}
	return errInjected
}

type vNode struct {
	name   string
	mode   fs.FileMode
	data   []byte
	target string
	mtime  time.Time
	sys    any
	size   int64 // reported if >= 0, instead of the real one
	kids   []*vNode
}

func (n *vNode) kid(name string) *vNode {
	i := sort.Search(len(n.kids), func(i int) bool { return n.kids[i].name >= name })
	if i < len(n.kids) && n.kids[i].name == name {
		return n.kids[i]
	}
	return nil
}

func (n *vNode) add(k *vNode) *vNode {
	n.kids = append(n.kids, k)
	sort.Slice(n.kids, func(i, j int) bool { return n.kids[i].name < n.kids[j].name })
	return k
}

func vDir(name string) *vNode { return &vNode{name: name, mode: fs.ModeDir | 0o755, size: -1} }
func vFile(name string, data []byte) *vNode {
	return &vNode{name: name, mode: 0o644, data: data, size: -1}
}
func vLink(name, target string) *vNode {
	return &vNode{name: name, mode: fs.ModeSymlink | 0o777, target: target, size: -1}
}

// walk calls f for every node below n, with its path.
func (n *vNode) walk(p string, f func(p string, n *vNode)) {
	f(p, n)
	for _, k := range n.kids {
		k.walk(path.Join(p, k.name), f)
	}
}

// describe prints a tree as Go-like text.
func (n *vNode) describe() string {
	var sb strings.Builder
	c := 0
	n.walk(".", func(p string, n *vNode) {
		if c++; c > 60 {
			return
		}
		fmt.Fprintf(&sb, "%q mode=%v size=%d target=%q mtime=%v sys=%T; ", p, n.mode, len(n.data), n.target, n.mtime, n.sys)
	})
	if c > 60 {
		fmt.Fprintf(&sb, "... (%d entries)", c)
	}
	return sb.String()
}

// vFS serves a tree. The fault function is consulted before every operation.
type vFS struct {
	root  *vNode
	fault func(op, p string) error
	chunk int // largest read
	grow  map[string]int
	ops   *int64
	open  *int64 // open handles
}

func newVFS(root *vNode) *vFS { return &vFS{root: root, ops: new(int64), open: new(int64)} }

func (v *vFS) check(op, p string) error {
	atomic.AddInt64(v.ops, 1)
	if v.fault != nil {
		return v.fault(op, p)
	}
	return nil
}

func (v *vFS) get(p string) *vNode {
	n := v.root
	if p == "." {
		return n
	}
	for _, c := range strings.Split(p, "/") {
		if n = n.kid(c); n == nil {
			return nil
		}
	}
	return n
}

func (v *vFS) Open(p string) (fs.File, error) {
	if err := v.check("open", p); err != nil {
		return nil, err
	}
	n := v.get(p)
	if n == nil {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	atomic.AddInt64(v.open, 1)
	return &vHandle{v: v, p: p, n: n, r: bytes.NewReader(n.data)}, nil
}

func (v *vFS) ReadDir(p string) ([]fs.DirEntry, error) {
	if err := v.check("readdir", p); err != nil {
		return nil, err
	}
	n := v.get(p)
	if n == nil || !n.mode.IsDir() {
		return nil, &fs.PathError{Op: "readdir", Path: p, Err: fs.ErrNotExist}
	}
	var r []fs.DirEntry
	for _, k := range n.kids {
		r = append(r, vEnt{v, path.Join(p, k.name), k})
	}
	return r, nil
}

func (v *vFS) Stat(p string) (fs.FileInfo, error) {
	if err := v.check("stat", p); err != nil {
		return nil, err
	}
	n := v.get(p)
	if n == nil {
		return nil, &fs.PathError{Op: "stat", Path: p, Err: fs.ErrNotExist}
	}
	return vInfo{n}, nil
}

func (v *vFS) StatLink(p string) (fs.FileInfo, error) { return v.Stat(p) }

func (v *vFS) ReadLink(p string) (string, error) {
	if err := v.check("readlink", p); err != nil {
		return "", err
	}
	n := v.get(p)
	if n == nil || n.mode&fs.ModeSymlink == 0 {
		return "", &fs.PathError{Op: "readlink", Path: p, Err: fs.ErrInvalid}
	}
	return n.target, nil
}

// vPlain hides ReadLink.
type vPlain struct{ v *vFS }

func (v vPlain) Open(p string) (fs.File, error)          { return v.v.Open(p) }
func (v vPlain) ReadDir(p string) ([]fs.DirEntry, error) { return v.v.ReadDir(p) }
func (v vPlain) Stat(p string) (fs.FileInfo, error)      { return v.v.Stat(p) }

type vEnt struct {
	v *vFS
	p string
	n *vNode
}

func (e vEnt) Name() string      { return e.n.name }
func (e vEnt) IsDir() bool       { return e.n.mode.IsDir() }
func (e vEnt) Type() fs.FileMode { return e.n.mode.Type() }
func (e vEnt) Info() (fs.FileInfo, error) {
	if err := e.v.check("info", e.p); err != nil {
		return nil, err
	}
	return vInfo{e.n}, nil
}

type vInfo struct{ n *vNode }

func (i vInfo) Name() string       { return i.n.name }
func (i vInfo) Mode() fs.FileMode  { return i.n.mode }
func (i vInfo) ModTime() time.Time { return i.n.mtime }
func (i vInfo) IsDir() bool        { return i.n.mode.IsDir() }
func (i vInfo) Sys() any           { return i.n.sys }
func (i vInfo) Size() int64 {
	if i.n.size >= 0 {
		return i.n.size
	}
	if i.n.mode&fs.ModeSymlink != 0 {
		return int64(len(i.n.target))
	}
	return int64(len(i.n.data))
}

type vHandle struct {
	v      *vFS
	p      string
	n      *vNode
	r      *bytes.Reader
	closed bool
}

func (h *vHandle) Stat() (fs.FileInfo, error) {
	if err := h.v.check("fstat", h.p); err != nil {
		return nil, err
	}
	return vInfo{h.n}, nil
}

func (h *vHandle) Read(b []byte) (int, error) {
	if err := h.v.check("read", h.p); err != nil {
		return 0, err
	}
	if h.closed {
		return 0, fs.ErrClosed
	}
	if h.v.chunk > 0 && len(b) > h.v.chunk {
		b = b[:h.v.chunk]
	}
	return h.r.Read(b)
}

func (h *vHandle) Close() error {
	if !h.closed {
		h.closed = true
		atomic.AddInt64(h.v.open, -1)
	}
	return nil
}

func (h *vHandle) ReadDir(n int) ([]fs.DirEntry, error) { return h.v.ReadDir(h.p) }

// ---------- destinations ----------

// vDst collects what is written; the fail-th write (from 0) and, unless once is set,
// all later ones fail, after part of it has been written.
type vDst struct {
	b      []byte
	n      int
	fail   int
	failed bool
	part   bool
	once   bool  // only this one fails
	err    error // with this error
}

func newDst() *vDst { return &vDst{fail: -1} }

func (d *vDst) one(p []byte) (int, error) {
	d.n++
	if d.fail >= 0 && d.n > d.fail && (!d.once || d.n == d.fail+1) {
		d.failed = true
		err := d.err
		if err == nil {
			err = errInjected
		}
		if d.part {
			return len(p) / 2, err
		}
		return 0, err
	}
	return len(p), nil
}

func (d *vDst) Write(p []byte) (int, error) {
	n, err := d.one(p)
	d.b = append(d.b, p[:n]...)
	return n, err
}

// vDstAt is a destination for WriteAt.
type vDstAt struct {
	vDst
	wrote [][2]int64
}

func newDstAt() *vDstAt { return &vDstAt{vDst: vDst{fail: -1}} }

func (d *vDstAt) WriteAt(p []byte, off int64) (int, error) {
	n, err := d.one(p)
	if need := off + int64(n); int64(len(d.b)) < need {
		d.b = append(d.b, make([]byte, need-int64(len(d.b)))...)
	}
	copy(d.b[off:], p[:n])
	if n > 0 {
		d.wrote = append(d.wrote, [2]int64{off, off + int64(n)})
	}
	return n, err
}

func (d *vDstAt) Write(p []byte) (int, error) { panic("Write on a WriterAt destination") }

// ---------- readers ----------

// vRA is an io.ReaderAt over b. From the fail-th call on it fails; with eof, a
// read that reaches the end returns io.EOF along with all of its data.
type vRA struct {
	b    []byte
	n    int64
	fail int64
	eof  bool
	part bool  // failing reads deliver half
	at   int64 // reads touching this offset fail, if > 0
	max  int64 // largest buffer asked for
}

func newRA(b []byte) *vRA { return &vRA{b: b, fail: -1} }

func (r *vRA) ReadAt(p []byte, off int64) (int, error) {
	c := atomic.AddInt64(&r.n, 1)
	for {
		m := atomic.LoadInt64(&r.max)
		if int64(len(p)) <= m || atomic.CompareAndSwapInt64(&r.max, m, int64(len(p))) {
			break
		}
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if (r.fail >= 0 && c > r.fail) || (r.at > 0 && off <= r.at && r.at < off+int64(len(p))) {
		if r.part && off < int64(len(r.b)) {
			n := copy(p[:len(p)/2], r.b[off:])
			return n, errInjected
		}
		return 0, errInjected
	}
	if off >= int64(len(r.b)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	if n < len(p) || (r.eof && off+int64(n) == int64(len(r.b))) {
		return n, io.EOF
	}
	return n, nil
}

// vReadAll reads a file in small or large steps.
func vReadAll(f io.Reader, step int) ([]byte, error) {
	var out []byte
	b := make([]byte, step)
	for idle := 0; ; {
		n, err := f.Read(b)
		if n < 0 || n > len(b) {
			return out, fmt.Errorf("read of %d of %d bytes", n, len(b))
		}
		out = append(out, b[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			if idle++; idle > 100 {
				return out, io.ErrNoProgress
			}
		} else {
			idle = 0
		}
	}
}

// ---------- generators ----------

func vBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

var vPerms = []fs.FileMode{0, 0o644, 0o755, 0o600, 0o777, 0o444, 0o755 | fs.ModeSetuid, 0o750 | fs.ModeSetgid, 0o777 | fs.ModeSticky, 0o711 | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky}

// vOwner is a Sys() value that says who the owner is.
func vOwner(r *rand.Rand) (sys any, uid, gid int) {
	uid, gid = []int{0, 1, 1000, 65535, 65536, 99999}[r.Intn(6)], []int{0, 1, 100, 65535, 65537, 99999}[r.Intn(6)]
	return &tar.Header{Uid: uid, Gid: gid}, uid, gid
}

// vTree makes a tree; names draws file names, links allows symbolic links.
func vTree(r *rand.Rand, depth, width int, names func() string, sizes func() int, links bool) *vNode {
	root := vDir(".")
	var all []string
	var fill func(d *vNode, p string, depth int)
	fill = func(d *vNode, p string, depth int) {
		n := r.Intn(width + 1)
		for i := 0; i < n; i++ {
			name := names()
			if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/\x00") || d.kid(name) != nil {
				continue
			}
			var k *vNode
			q := path.Join(p, name)
			switch c := r.Intn(10); {
			case c < 3 && depth > 0:
				k = vDir(name)
				fill(k, q, depth-1)
			case c < 5 && links:
				t := "nowhere"
				switch r.Intn(5) {
				case 0:
					if len(all) > 0 {
						t = "/" + all[r.Intn(len(all))]
					}
				case 1:
					t = "../" + name
				case 2:
					t = strings.Repeat("x/", 1+r.Intn(600)) + "y"
				case 3:
					if len(d.kids) > 0 {
						t = d.kids[r.Intn(len(d.kids))].name
					}
				}
				k = vLink(name, t)
			default:
				k = vFile(name, vBytes(r, sizes()))
			}
			if k.mode&fs.ModeSymlink == 0 || r.Intn(4) == 0 {
				k.mode = k.mode.Type() | vPerms[r.Intn(len(vPerms))]
			}
			d.add(k)
			all = append(all, q)
		}
	}
	fill(root, "", depth)
	return root
}
