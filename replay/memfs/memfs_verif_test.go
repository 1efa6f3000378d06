package memfs_test

// Bounded replay of the memfs properties on the real code: searches for a
// concrete failing input when an obligation is not discharged, and checks the
// contracts of dependencies that the proofs assume.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/memfs"
)

func vSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vScale(q, t int) int {
	if vThorough() {
		return t
	}
	return q
}

var vStats = struct {
	sync.Mutex
	N map[string]int
}{N: map[string]int{}}

func vCount(k string, n int) {
	vStats.Lock()
	vStats.N[k] += n
	vStats.Unlock()
}

func TestMain(m *testing.M) {
	c := m.Run()
	if f := os.Getenv("VERIF_STATS"); f != "" {
		b, _ := json.Marshal(vStats.N)
		os.WriteFile(f, b, 0o644)
	}
	os.Exit(c)
}

// ---------- reference model ----------

type vNode struct {
	dir  bool
	perm fs.FileMode
	data string
	kids map[string]*vNode
}

type vModel struct{ root *vNode }

func newModel() *vModel { return &vModel{&vNode{dir: true, kids: map[string]*vNode{}}} }

func (m *vModel) get(p string) *vNode {
	if p == "." {
		return m.root
	}
	n := m.root
	for _, c := range strings.Split(p, "/") {
		if !n.dir {
			return nil
		}
		n = n.kids[c]
		if n == nil {
			return nil
		}
	}
	return n
}

func (m *vModel) mkdirAll(p string, perm fs.FileMode) bool {
	if !fs.ValidPath(p) {
		return false
	}
	if p == "." {
		return true
	}
	n := m.root
	for _, c := range strings.Split(p, "/") {
		k := n.kids[c]
		if k == nil {
			k = &vNode{dir: true, perm: perm, kids: map[string]*vNode{}}
			n.kids[c] = k
		}
		if !k.dir {
			return false
		}
		n = k
	}
	return true
}

func (m *vModel) write(p, data string, perm fs.FileMode) bool {
	if !fs.ValidPath(p) || p == "." {
		return false
	}
	d := m.get(path.Dir(p))
	if d == nil || !d.dir {
		return false
	}
	b := path.Base(p)
	if k := d.kids[b]; k != nil {
		if k.dir {
			return false
		}
		d.kids[b] = &vNode{perm: k.perm, data: data}
		return true
	}
	d.kids[b] = &vNode{perm: perm, data: data}
	return true
}

var vPaths = []string{"a", "b", "a/b", "a/b/c", "b/c", "c", ".x", "a/.x", "a/b/c/d", "c/d"}
var vBad = []string{"", "/a", "a/", "../a", "a//b", "a/../b", "./a"}

type vOp struct {
	kind string
	p    string
	data string
	perm fs.FileMode
}

func (o vOp) String() string {
	if o.kind == "mkdir" {
		return fmt.Sprintf("MkdirAll(%q, %v)", o.p, o.perm)
	}
	return fmt.Sprintf("WriteFile(%q, %q, %v)", o.p, o.data, o.perm)
}

func apply(rootFS *memfs.FS, m *vModel, o vOp) (string, bool) {
	var err error
	var ok bool
	switch o.kind {
	case "mkdir":
		err = rootFS.MkdirAll(o.p, o.perm)
		ok = m.mkdirAll(o.p, o.perm)
	case "write":
		err = rootFS.WriteFile(o.p, []byte(o.data), o.perm)
		ok = m.write(o.p, o.data, o.perm)
	}
	if (err == nil) != ok {
		return fmt.Sprintf("%v: error %v, success expected: %v", o, err, ok), false
	}
	if !fs.ValidPath(o.p) && !errors.Is(err, fs.ErrInvalid) {
		return fmt.Sprintf("%v: error %v is not fs.ErrInvalid", o, err), false
	}
	return "", true
}

// compare checks the whole file system against the model.
func compare(f fs.FS, m *vModel, paths []string) string {
	for _, p := range paths {
		n := m.get(p)
		fh, err := f.Open(p)
		if n == nil {
			if err == nil {
				return fmt.Sprintf("Open(%q) succeeds, nothing is there", p)
			}
			if !errors.Is(err, fs.ErrNotExist) {
				return fmt.Sprintf("Open(%q): %v is not fs.ErrNotExist", p, err)
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("Open(%q): %v", p, err)
		}
		fi, err := fh.Stat()
		if err != nil {
			return fmt.Sprintf("Stat(%q): %v", p, err)
		}
		want := n.perm
		if n.dir {
			want |= fs.ModeDir
		}
		if fi.IsDir() != n.dir || fi.Mode() != want && p != "." {
			return fmt.Sprintf("Stat(%q): mode %v, want %v", p, fi.Mode(), want)
		}
		if p != "." && fi.Name() != path.Base(p) {
			return fmt.Sprintf("Stat(%q): name %q", p, fi.Name())
		}
		if !n.dir {
			b, err := io.ReadAll(fh)
			if err != nil || string(b) != n.data || fi.Size() != int64(len(n.data)) {
				return fmt.Sprintf("content of %q: %q (%v), size %d, want %q", p, b, err, fi.Size(), n.data)
			}
			continue
		}
		var names []string
		for k := range n.kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for pass, list := range []func() ([]fs.DirEntry, error){
			func() ([]fs.DirEntry, error) { return fs.ReadDir(f, p) },
			func() ([]fs.DirEntry, error) { return fh.(fs.ReadDirFile).ReadDir(-1) },
		} {
			es, err := list()
			if err != nil {
				return fmt.Sprintf("ReadDir(%q): %v", p, err)
			}
			var got []string
			for _, e := range es {
				got = append(got, e.Name())
				k := n.kids[e.Name()]
				if k == nil {
					return fmt.Sprintf("ReadDir(%q) lists %q, which is not there", p, e.Name())
				}
				w := k.perm
				if k.dir {
					w |= fs.ModeDir
				}
				if e.IsDir() != k.dir || e.Type() != w.Type() {
					return fmt.Sprintf("ReadDir(%q): %q has type %v, want %v", p, e.Name(), e.Type(), w.Type())
				}
				fi, err := e.Info()
				if err != nil || fi.Name() != e.Name() || fi.Mode() != w || !k.dir && fi.Size() != int64(len(k.data)) {
					return fmt.Sprintf("ReadDir(%q): info of %q: %v %v", p, e.Name(), fi, err)
				}
			}
			if pass == 1 {
				sort.Strings(got)
			}
			if !slices.Equal(got, names) {
				return fmt.Sprintf("ReadDir(%q) gives %q, want %q", p, got, names)
			}
		}
	}
	for _, p := range vBad {
		if _, err := f.Open(p); !errors.Is(err, fs.ErrInvalid) {
			return fmt.Sprintf("Open(%q): %v is not fs.ErrInvalid", p, err)
		}
	}
	return ""
}

func report(t *testing.T, ops []vOp, msg string) {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	t.Fatalf("FAILING INPUT: after %s: %s", strings.Join(s, "; "), msg)
}

func allPaths() []string {
	out := append([]string{".", "e", "a/c", "b/c/d", "a/b/d"}, vPaths...)
	// paths that go through each path
	for _, p := range vPaths {
		b := path.Base(p)
		out = append(out, p+"/"+b, p+"/x/"+b, p+"/"+p, p+"/x", p+"x", b+"/"+b, p+"/"+vPaths[0], p+"/"+path.Dir(p))
	}
	for i := range out {
		out[i] = path.Clean(out[i])
	}
	return out
}

func runOps(t *testing.T, ops []vOp) {
	f, m := memfs.New(), newModel()
	for i, o := range ops {
		if msg, ok := apply(f, m, o); !ok {
			report(t, ops[:i+1], msg)
		}
	}
	if msg := compare(f, m, allPaths()); msg != "" {
		report(t, ops, msg)
	}
	for _, p := range append([]string{"a/zz", "zz"}, vPaths[:4]...) {
		s, err := fs.Sub(f, p)
		n := m.get(p)
		if (err == nil) != (n != nil && n.dir) {
			report(t, ops, fmt.Sprintf("Sub(%q): %v", p, err))
		}
		if err != nil {
			continue
		}
		if msg := compare(s, &vModel{n}, []string{".", "b", "c", "b/c", "c/d", ".x"}); msg != "" {
			report(t, ops, fmt.Sprintf("in Sub(%q): %s", p, msg))
		}
	}
	vCount("sequences", 1)
}

func TestVerifC19(t *testing.T) {
	var ops []vOp
	for _, p := range append(append([]string{"."}, vPaths...), vBad...) {
		ops = append(ops, vOp{"mkdir", p, "", 0o755}, vOp{"write", p, "one", 0o644})
	}
	for _, p := range vPaths[:5] {
		ops = append(ops, vOp{"write", p, "", 0o600}, vOp{"write", p, "second content", 0o400 | fs.ModeSetuid}, vOp{"mkdir", p, "", 0o700})
	}
	for _, a := range ops {
		for _, b := range ops {
			runOps(t, []vOp{a, b})
		}
	}
	rng := rand.New(rand.NewSource(vSeed()))
	for i := 0; i < vScale(6000, 200000); i++ {
		n := 1 + rng.Intn(12)
		var s []vOp
		for j := 0; j < n; j++ {
			s = append(s, ops[rng.Intn(len(ops))])
		}
		runOps(t, s)
	}
	// many siblings
	f, m := memfs.New(), newModel()
	var ps []string
	for i := 0; i < 300; i++ {
		p := fmt.Sprintf("d%d/f%d", i%7, i)
		apply(f, m, vOp{"mkdir", path.Dir(p), "", 0o755})
		apply(f, m, vOp{"write", p, strings.Repeat("x", i), 0o644})
		ps = append(ps, p, path.Dir(p))
	}
	if msg := compare(f, m, ps); msg != "" {
		t.Fatalf("FAILING INPUT: 300 files in 7 directories: %s", msg)
	}
}

// TestVerifC20 is run with the race detector.
func TestVerifC20(t *testing.T) {
	for round := 0; round < vScale(25, 400); round++ {
		rng := rand.New(rand.NewSource(vSeed()*1000 + int64(round)))
		f := memfs.New()
		_ = f.MkdirAll("a/b", 0o755)
		_ = f.WriteFile("a/f", []byte("0"), 0o644)
		_ = f.WriteFile("a/b/f", []byte("0"), 0o644)
		shared, err := f.Open("a")
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		paths := []string{".", "a", "a/b", "a/f", "a/b/f", "a/new", "n1/n2", "a/f/x", "/bad", "a/b/new"}
		bad := make(chan string, 100)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			seed := rng.Int63()
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for k := 0; k < 40; k++ {
					p := paths[r.Intn(len(paths))]
					switch r.Intn(8) {
					case 0:
						_ = f.WriteFile(p, bytes.Repeat([]byte{byte('a' + r.Intn(3))}, 1+r.Intn(2000)), 0o644)
					case 1:
						_ = f.MkdirAll(p, 0o755)
					case 2, 3:
						b, err := fs.ReadFile(f, p)
						if err == nil && len(b) > 0 && !bytes.Equal(b, bytes.Repeat(b[:1], len(b))) {
							bad <- fmt.Sprintf("a read of %q sees a mixture of two writes", p)
						}
					case 4:
						_, _ = fs.ReadDir(f, p)
					case 5:
						_, _ = fs.Stat(f, p)
					case 6:
						if s, err := f.Sub(p); err == nil {
							_, _ = fs.ReadDir(s, ".")
							_, _ = s.Open("f")
						}
					case 7:
						_ = fs.WalkDir(f, ".", func(string, fs.DirEntry, error) error { return nil })
						_, _ = shared.Stat()
					}
				}
			}()
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			t.Fatalf("FAILING INPUT: deadlock: 8 goroutines with seed %d, round %d have not finished after 30s", vSeed(), round)
		}
		select {
		case m := <-bad:
			t.Fatalf("FAILING INPUT: %s (seed %d, round %d)", m, vSeed(), round)
		default:
		}
		vCount("concurrent rounds", 1)
	}
}

// what concurrent operations have done stays: no directory made by one of them
// is replaced by another
func TestVerifC20Lost(t *testing.T) {
	for round := 0; round < vScale(400, 20000); round++ {
		f := memfs.New()
		var wg sync.WaitGroup
		start := make(chan bool)
		bad := make(chan string, 16)
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 4; k++ {
					d := fmt.Sprintf("d%d/e", k)
					p := fmt.Sprintf("%s/f%d", d, g)
					if err := f.MkdirAll(d, 0o755); err != nil {
						bad <- fmt.Sprintf("MkdirAll(%q): %v", d, err)
					}
					if err := f.WriteFile(p, []byte(p), 0o644); err != nil {
						bad <- fmt.Sprintf("WriteFile(%q): %v", p, err)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for g := 0; g < 6; g++ {
			for k := 0; k < 4; k++ {
				p := fmt.Sprintf("d%d/e/f%d", k, g)
				if b, err := fs.ReadFile(f, p); err != nil || string(b) != p {
					bad <- fmt.Sprintf("%q is lost: %q, %v", p, b, err)
					g, k = 6, 4
				}
			}
		}
		select {
		case m := <-bad:
			t.Fatalf("FAILING INPUT: 6 goroutines each make d0/e to d3/e and write a file of their own into each: %s", m)
		default:
		}
		vCount("concurrent creations", 24)
	}
}

// every operation releases its locks: each one is followed by operations on
// all directories, which would block otherwise
func TestVerifC20Locks(t *testing.T) {
	ops := map[string]func(f *memfs.FS, p string){
		"WriteFile": func(f *memfs.FS, p string) { _ = f.WriteFile(p, []byte("x"), 0o644) },
		"MkdirAll":  func(f *memfs.FS, p string) { _ = f.MkdirAll(p, 0o755) },
		"Open":      func(f *memfs.FS, p string) { _, _ = f.Open(p) },
		"Sub":       func(f *memfs.FS, p string) { _, _ = f.Sub(p) },
		"Stat":      func(f *memfs.FS, p string) { _, _ = fs.Stat(f, p) },
		"ReadFile":  func(f *memfs.FS, p string) { _, _ = fs.ReadFile(f, p) },
		"ReadDir": func(f *memfs.FS, p string) {
			if h, err := f.Open(p); err == nil {
				if d, ok := h.(fs.ReadDirFile); ok {
					for _, n := range []int{1, 1, 1, 0, 5, -1} {
						_, _ = d.ReadDir(n)
					}
				}
			}
		},
	}
	for name, op := range ops {
		for _, p := range []string{".", "a", "a/f", "a/f/x", "a/b", "a/b/c", "n", "n/m", "a/n/m", "", "/x", "a/empty", "a/b/f/g"} {
			f := memfs.New()
			_ = f.MkdirAll("a/b", 0o755)
			_ = f.MkdirAll("a/empty", 0o755)
			_ = f.WriteFile("a/f", []byte("0"), 0o644)
			_ = f.WriteFile("a/b/f", []byte("0"), 0o644)
			done := make(chan bool)
			go func() {
				op(f, p)
				_ = fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error { return nil })
				_ = f.WriteFile("a/b/last", nil, 0o644)
				close(done)
			}()
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				t.Fatalf("FAILING INPUT: %s(%q) leaves a lock behind: later operations block", name, p)
			}
			vCount("lock release cases", 1)
		}
	}
}

func TestVerifC21(t *testing.T) {
	rng := rand.New(rand.NewSource(vSeed()))
	for i := 0; i < vScale(3000, 100000); i++ {
		var log []string
		say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			t.Fatalf("FAILING INPUT: %s: %s", strings.Join(log, "; "), fmt.Sprintf(f, a...))
		}
		f := memfs.New()
		type handle struct {
			f      fs.File
			want   string
			perm   fs.FileMode
			size   int
			closed bool
			p      string
		}
		var hs []*handle
		cur := map[string]string{}
		perm := map[string]fs.FileMode{}
		names := []string{"a", "b"}
		for j := 0; j < 14; j++ {
			p := names[rng.Intn(2)]
			switch k := rng.Intn(8); {
			case k < 2:
				n := rng.Intn(6)
				if rng.Intn(4) == 0 {
					n = rng.Intn(600)
				}
				b := bytes.Repeat([]byte{byte('a' + rng.Intn(26))}, n)
				s := string(b)
				pm := fs.FileMode(rng.Intn(0o1000))
				if err := f.WriteFile(p, b, pm); err != nil {
					fail("%v", err)
				}
				if _, ok := perm[p]; !ok {
					perm[p] = pm
				}
				cur[p] = s
				for x := range b {
					b[x] = '!'
				}
				b = append(b, "!!!"...)
				say("WriteFile(%q, %q, %v), then the buffer is overwritten", p, s, pm)
			case k < 4:
				c, ok := cur[p]
				h, err := f.Open(p)
				say("h%d = Open(%q)", len(hs), p)
				if (err == nil) != ok {
					fail("error %v", err)
				}
				if ok {
					hs = append(hs, &handle{h, c, perm[p], len(c), false, p})
				} else {
					log = log[:len(log)-1]
				}
			case k < 7 && len(hs) > 0:
				x := rng.Intn(len(hs))
				h := hs[x]
				b := make([]byte, rng.Intn(5))
				n, err := h.f.Read(b)
				say("h%d.Read(%d bytes)", x, len(b))
				if h.closed {
					if err == nil || n != 0 || !errors.Is(err, fs.ErrClosed) {
						fail("a closed handle gives %d, %v", n, err)
					}
					continue
				}
				if n > len(h.want) || h.want[:n] != string(b[:n]) || n == 0 && len(b) > 0 && !(h.want == "" && err == io.EOF) || n > 0 && err != nil {
					fail("gives %q, %v; want a prefix of %q", b[:n], err, trunc(h.want))
				}
				h.want = h.want[n:]
				for y := range b {
					b[y] = '?'
				}
				if fi, err := h.f.Stat(); err != nil || fi.Size() != int64(h.size) || fi.Mode() != h.perm {
					fail("Stat gives %v, %v; want size %d, mode %v", fi, err, h.size, h.perm)
				}
			case len(hs) > 0:
				x := rng.Intn(len(hs))
				err := hs[x].f.Close()
				say("h%d.Close()", x)
				if hs[x].closed != (err != nil) {
					fail("error %v", err)
				}
				if !hs[x].closed {
					hs[x].closed = true
					if _, err := hs[x].f.Stat(); !errors.Is(err, fs.ErrClosed) {
						fail("Stat of a closed handle: %v", err)
					}
				}
			}
		}
		for x, h := range hs {
			if h.closed {
				continue
			}
			b, err := io.ReadAll(h.f)
			if err != nil || string(b) != h.want {
				fail("the rest of h%d is %q (%v), want %q", x, trunc(string(b)), err, trunc(h.want))
			}
		}
		for p, c := range cur {
			b, err := fs.ReadFile(f, p)
			if err != nil || string(b) != c {
				fail("the content of %q is %q (%v), want %q", p, trunc(string(b)), err, trunc(c))
			}
		}
		vCount("histories", 1)
	}
}

func trunc(s string) string {
	if len(s) > 20 {
		return s[:20] + "…"
	}
	return s
}

func TestVerifC22(t *testing.T) {
	rng := rand.New(rand.NewSource(vSeed()))
	try := func(names []string, pages []int) {
		f := memfs.New()
		_ = f.MkdirAll("d", 0o755)
		for i, n := range names {
			if i%3 == 2 {
				_ = f.MkdirAll("d/"+n, 0o755)
			} else {
				_ = f.WriteFile("d/"+n, []byte(n), 0o644)
			}
		}
		h, err := f.Open("d")
		if err != nil {
			t.Fatal(err)
		}
		want := slices.Clone(names)
		sort.Strings(want)
		var got []string
		fail := func(s string, a ...any) {
			t.Fatalf("FAILING INPUT: entries %q, page sizes %v: %s", names, pages, fmt.Sprintf(s, a...))
		}
		for _, n := range pages {
			es, err := h.(fs.ReadDirFile).ReadDir(n)
			left := len(want) - len(got)
			switch {
			case n <= 0:
				if err != nil || len(es) != left {
					fail("ReadDir(%d) gives %d entries, %v; %d are left", n, len(es), err, left)
				}
			case left == 0:
				if err != io.EOF || len(es) != 0 {
					fail("ReadDir(%d) at the end gives %d entries, %v", n, len(es), err)
				}
			default:
				if err != nil || len(es) == 0 || len(es) > n {
					fail("ReadDir(%d) gives %d entries, %v; %d are left", n, len(es), err, left)
				}
			}
			for _, e := range es {
				got = append(got, e.Name())
			}
			if len(got) > len(want) || !slices.Equal(got, want[:len(got)]) {
				fail("so far %q", got)
			}
		}
		vCount("paging histories", 1)
	}
	base := []string{"c", "a", "b", "ab", ".h", "z", "B", "a.b", "10", "9"}
	for n := 0; n <= 4; n++ {
		for a := -1; a <= 5; a++ {
			for b := -1; b <= 5; b++ {
				for c := -1; c <= 3; c++ {
					try(base[:n], []int{a, b, c, 1, 2, 3, 1, 1, 1, 0, 1})
				}
			}
		}
	}
	for _, n := range []int{17, 40, 100, 333} {
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, strconv.Itoa(i*7919%1000))
		}
		for _, pg := range []int{1, 2, 3, 10, 16, 17, 64, 100, 1000} {
			pages := make([]int, n/pg+3)
			for i := range pages {
				pages[i] = pg
			}
			try(names, pages)
			pages[len(pages)/2] = -1
			try(names, pages)
		}
	}
	for i := 0; i < vScale(2000, 50000); i++ {
		n := rng.Intn(len(base) + 1)
		names := slices.Clone(base)
		rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		var pages []int
		for k := 0; k < 12; k++ {
			pages = append(pages, rng.Intn(6)-1+rng.Intn(2))
		}
		try(names[:n], pages)
	}
}
