package tarfs_test

// Bounded replay of the tar properties on the real code.

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/tarfs"
)

// ---------- the model: what an archive denotes, from its list of entries ----------

type tNode struct {
	name   string
	hdr    *tar.Header // nil if implied
	typ    byte
	data   []byte
	hard   bool
	parent *tNode
	kids   map[string]*tNode
}

func (n *tNode) mode() fs.FileMode {
	if n.hdr == nil {
		return fs.ModeDir | 0o755
	}
	h := *n.hdr
	h.Typeflag = n.typ
	return h.FileInfo().Mode()
}

func (n *tNode) names() []string {
	r := []string{}
	for k := range n.kids {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type tEnt struct {
	hdr  *tar.Header
	data []byte
}

func refCanon(s string) string {
	var out []string
	for _, c := range strings.Split(s, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return strings.Join(out, "/")
}

var errStop = errors.New("model: too large")

// refEntries lists the entries with archive/tar.
func refEntries(b []byte) ([]tEnt, error) {
	tr := tar.NewReader(bytes.NewReader(b))
	var r []tEnt
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return nil, err
		}
		var data []byte
		switch h.Typeflag {
		case tar.TypeReg, tar.TypeGNUSparse:
			if h.Size > 1<<22 {
				return nil, errStop
			}
			if data, err = io.ReadAll(tr); err != nil {
				return nil, err
			}
		case tar.TypeDir, tar.TypeLink, tar.TypeSymlink:
		case tar.TypeXGlobalHeader:
			continue
		default:
			return nil, errors.New("unsupported type")
		}
		c := *h
		r = append(r, tEnt{&c, data})
	}
}

// refTree is the tree that the entries denote; proper is false if something
// lies below an entry that is not a directory.
func refTree(ents []tEnt) (root *tNode, proper bool, err error) {
	last := map[string]tEnt{}
	for _, e := range ents {
		if n := refCanon(e.hdr.Name); n != "" {
			last[n] = e
		}
	}
	root = &tNode{name: ".", typ: tar.TypeDir, kids: map[string]*tNode{}}
	proper = true
	for n, e := range last {
		d := root
		cs := strings.Split(n, "/")
		p := ""
		for _, c := range cs[:len(cs)-1] {
			p = refCanon(p + "/" + c)
			if x, ok := last[p]; ok && x.hdr.Typeflag != tar.TypeDir {
				proper = false
			}
			if d.kids[c] == nil {
				d.kids[c] = &tNode{name: c, typ: tar.TypeDir, kids: map[string]*tNode{}, parent: d}
			}
			d = d.kids[c]
		}
		c := cs[len(cs)-1]
		k := d.kids[c]
		if k == nil {
			k = &tNode{name: c, kids: map[string]*tNode{}, parent: d}
			d.kids[c] = k
		}
		// what it finally denotes
		k.hard = e.hdr.Typeflag == tar.TypeLink
		for hops := 0; e.hdr.Typeflag == tar.TypeLink; hops++ {
			tn := refCanon(e.hdr.Linkname)
			x, ok := last[tn]
			if !ok {
				for m := range last { // an implied directory
					if strings.HasPrefix(m, tn+"/") {
						x, ok = tEnt{hdr: &tar.Header{Typeflag: tar.TypeDir, Mode: 0o755}}, true
					}
				}
			}
			if !ok {
				err = fmt.Errorf("hard link to %q", tn)
				break
			}
			if hops > len(last) {
				err = fmt.Errorf("hard link loop at %q", tn)
				break
			}
			e = x
		}
		k.hdr, k.typ, k.data = e.hdr, e.hdr.Typeflag, e.data
	}
	return root, proper, err
}

type resolution int

const (
	resOK resolution = iota
	resNone
	resLoop
	resUnspecified // a file used as a directory by a link
)

// refResolve follows links like a file system.
func refResolve(root *tNode, p string) (*tNode, resolution, int) {
	d := root
	links := 0
	var todo []string
	if c := refCanon(p); c != "" {
		todo = strings.Split(c, "/")
	}
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if c == "" || c == "." || c == ".." {
			if d.typ != tar.TypeDir {
				return nil, resUnspecified, links
			}
			if c == ".." && d.parent != nil {
				d = d.parent
			}
			continue
		}
		k := d.kids[c]
		if k == nil {
			return nil, resNone, links
		}
		if k.typ == tar.TypeSymlink {
			if links++; links > 40 {
				return nil, resLoop, links
			}
			t := k.hdr.Linkname
			if strings.HasPrefix(t, "/") {
				d = root
			}
			todo = append(strings.Split(strings.TrimLeft(t, "/"), "/"), todo...)
			continue
		}
		d = k
	}
	return d, resOK, links
}

func quote(b []byte) string {
	if len(b) > 6000 {
		return fmt.Sprintf("an archive of %d bytes, seed %d", len(b), vSeed())
	}
	// leave the zeros out
	return "the archive (base64) " + base64.StdEncoding.EncodeToString(b)
}

func describe(ents []tEnt) string {
	var sb strings.Builder
	sb.WriteString("an archive of the entries ")
	for i, e := range ents {
		if i > 40 {
			fmt.Fprintf(&sb, "... (%d)", len(ents))
			break
		}
		fmt.Fprintf(&sb, "{%q %c mode=%o link=%q %d bytes} ", e.hdr.Name, e.hdr.Typeflag, e.hdr.Mode, e.hdr.Linkname, len(e.data))
	}
	return sb.String()
}

// build writes the entries.
func build(ents []tEnt) ([]byte, error) {
	var bb bytes.Buffer
	tw := tar.NewWriter(&bb)
	for _, e := range ents {
		h := *e.hdr
		h.Size = int64(len(e.data))
		if err := tw.WriteHeader(&h); err != nil {
			return nil, err
		}
		if _, err := tw.Write(e.data); err != nil {
			return nil, err
		}
	}
	if err := tw.Close(); err != nil {
		return nil, err
	}
	return bb.Bytes(), nil
}

func sameInfo(fi fs.FileInfo, n *tNode, name string) string {
	var mtime time.Time
	uid, gid := 0, 0
	if n.hdr != nil {
		mtime, uid, gid = n.hdr.ModTime, n.hdr.Uid, n.hdr.Gid
	}
	want := int64(0)
	if n.hdr != nil {
		want = n.hdr.Size
	}
	h, _ := fi.Sys().(*tar.Header)
	switch {
	case name != "" && fi.Name() != name:
		return fmt.Sprintf("name %q, want %q", fi.Name(), name)
	case fi.Mode() != n.mode():
		return fmt.Sprintf("mode %v, want %v", fi.Mode(), n.mode())
	case fi.Size() != want:
		return fmt.Sprintf("size %d, want %d", fi.Size(), want)
	case n.hdr != nil && !fi.ModTime().Equal(mtime):
		return fmt.Sprintf("mtime %v, want %v", fi.ModTime(), mtime)
	case fi.IsDir() != (n.typ == tar.TypeDir):
		return fmt.Sprintf("IsDir %v", fi.IsDir())
	case h != nil && (h.Uid != uid || h.Gid != gid):
		return fmt.Sprintf("owner %d:%d, want %d:%d", h.Uid, h.Gid, uid, gid)
	}
	return ""
}

// diff compares an opened archive with the model and says what differs.
func diff(fsys *tarfs.FS, root *tNode, step int) (why string) {
	var rec func(p string, n *tNode) string
	rec = func(p string, n *tNode) string {
		if n.typ == tar.TypeDir && !(n.hard && len(n.kids) == 0) {
			des, err := fsys.ReadDir(p)
			if err != nil {
				return fmt.Sprintf("ReadDir(%q): %v", p, err)
			}
			var got []string
			for _, d := range des {
				got = append(got, d.Name())
			}
			want := n.names()
			if strings.Join(got, "\x00") != strings.Join(want, "\x00") || len(got) != len(want) {
				return fmt.Sprintf("ReadDir(%q) lists %q, want %q", p, got, want)
			}
			for _, d := range des {
				k := n.kids[d.Name()]
				if d.Type() != k.mode().Type() || d.IsDir() != (k.typ == tar.TypeDir) {
					return fmt.Sprintf("ReadDir(%q): %q has type %v, want %v", p, d.Name(), d.Type(), k.mode().Type())
				}
				fi, err := d.Info()
				if err != nil {
					return fmt.Sprintf("ReadDir(%q): Info of %q: %v", p, d.Name(), err)
				}
				if w := sameInfo(fi, k, k.name); w != "" {
					return fmt.Sprintf("ReadDir(%q): Info of %q: %s", p, d.Name(), w)
				}
			}
			for c, k := range n.kids {
				q := c
				if p != "." {
					q = p + "/" + c
				}
				if w := rec(q, k); w != "" {
					return w
				}
			}
		}
		fi, err := fsys.StatLink(p)
		if err != nil {
			return fmt.Sprintf("StatLink(%q): %v", p, err)
		}
		if w := sameInfo(fi, n, n.name); w != "" {
			return fmt.Sprintf("StatLink(%q): %s", p, w)
		}
		l, err := fsys.ReadLink(p)
		if (err == nil) != (n.typ == tar.TypeSymlink) || (err == nil && l != n.hdr.Linkname) {
			return fmt.Sprintf("ReadLink(%q) is %q, %v", p, l, err)
		}
		if n.typ == tar.TypeSymlink {
			return ""
		}
		if fi, err = fsys.Stat(p); err != nil {
			return fmt.Sprintf("Stat(%q): %v", p, err)
		}
		if w := sameInfo(fi, n, n.name); w != "" {
			return fmt.Sprintf("Stat(%q): %s", p, w)
		}
		f, err := fsys.Open(p)
		if err != nil {
			return fmt.Sprintf("Open(%q): %v", p, err)
		}
		defer f.Close()
		if fi, err = f.Stat(); err != nil {
			return fmt.Sprintf("Stat of the open %q: %v", p, err)
		}
		if w := sameInfo(fi, n, n.name); w != "" {
			return fmt.Sprintf("Stat of the open %q: %s", p, w)
		}
		if n.typ == tar.TypeDir {
			return ""
		}
		b, err := vReadAll(f, step)
		if err != nil || !bytes.Equal(b, n.data) {
			return fmt.Sprintf("reading %q yields %d bytes (error %v), want %d", p, len(b), err, len(n.data))
		}
		if step > 1 {
			vCount("files read", 1)
		}
		return ""
	}
	if w := rec(".", root); w != "" {
		return w
	}
	for _, p := range []string{"nonexistent", "nonexistent/x", ".x", "x."} {
		if n, res, _ := refResolve(root, p); n == nil && res == resNone {
			if _, err := fsys.Open(p); err == nil {
				return fmt.Sprintf("Open(%q) succeeds", p)
			}
			if _, err := fsys.Stat(p); err == nil {
				return fmt.Sprintf("Stat(%q) succeeds", p)
			}
		}
	}
	return ""
}

// openModel opens an archive and compares it with what archive/tar and the
// model make of it.
func openModel(t *testing.T, b []byte, in string, step int) (*tarfs.FS, *tNode) {
	t.Helper()
	var fsys *tarfs.FS
	var err error
	ents, rerr := refEntries(b)
	if rerr == errStop {
		return nil, nil
	}
	vWithin(t, 20*time.Second, func() string { return in }, func() {
		fsys, err = tarfs.Open(newRA(b))
	})
	vCount("archives", 1)
	if rerr != nil {
		if err == nil {
			vBad(t, in, "Open succeeds, but the archive is refused by archive/tar: %v", rerr)
		}
		return nil, nil
	}
	root, proper, terr := refTree(ents)
	if !proper {
		return nil, nil
	}
	if terr != nil {
		if err == nil {
			vBad(t, in, "Open succeeds, but there is a %v", terr)
		}
		vCount("refused", 1)
		return nil, nil
	}
	if err != nil {
		vBad(t, in, "Open: %v", err)
	}
	vCount("opened", 1)
	vWithin(t, 20*time.Second, func() string { return in }, func() {
		if w := diff(fsys, root, step); w != "" {
			vBad(t, in, "%s", w)
		}
	})
	return fsys, root
}

// ---------- generators ----------

var tarNames = []string{"a", "b", "c", "d", ".a", "..a", "a.", "a b", " a", "a ", "é", strings.Repeat("n", 101), strings.Repeat("m", 300), "a.b", "a-b", "A", "...", "x\\y", "\xff\xfe"}

func tarPath(r *rand.Rand, deep int) string {
	var cs []string
	for i := 0; i <= r.Intn(deep); i++ {
		cs = append(cs, tarNames[min(r.Intn(len(tarNames)), r.Intn(len(tarNames)))])
	}
	return strings.Join(cs, "/")
}

func spell(r *rand.Rand, p string) string {
	switch r.Intn(9) {
	case 0:
		return "./" + p
	case 1:
		return "/" + p
	case 2:
		return strings.ReplaceAll(p, "/", "//")
	case 3:
		return "zz/../" + p
	case 4:
		return "../" + p
	}
	return p
}

func tarHdr(r *rand.Rand, name string, typ byte) *tar.Header {
	h := &tar.Header{Name: name, Typeflag: typ, Mode: int64(r.Intn(0o10000)), Uid: r.Intn(70000), Gid: r.Intn(70000), ModTime: time.Unix(int64(r.Intn(1<<31)), 0)}
	switch r.Intn(4) {
	case 0:
		h.Format = tar.FormatPAX
		h.ModTime = time.Unix(int64(r.Intn(1<<31)), int64(r.Intn(1000000000)))
	case 1:
		h.Format = tar.FormatGNU
	}
	return h
}

// tarEnts makes a list of entries; links: kinds of links to make.
func tarEnts(r *rand.Rand, n int, sym, hard bool) []tEnt {
	var ents []tEnt
	dirs := []string{""}
	var all []string
	for i := 0; i < n; i++ {
		p := tarPath(r, 3)
		if len(dirs) > 0 && r.Intn(2) == 0 {
			p = refCanon(dirs[r.Intn(len(dirs))] + "/" + p)
		}
		if len(all) > 0 && r.Intn(5) == 0 {
			p = all[r.Intn(len(all))]
		}
		e := tEnt{}
		c := r.Intn(10)
		switch {
		case c < 3:
			e.hdr = tarHdr(r, spell(r, p), tar.TypeDir)
			if r.Intn(2) == 0 {
				e.hdr.Name += "/"
			}
			dirs = append(dirs, p)
		case c < 5 && sym:
			e.hdr = tarHdr(r, spell(r, p), tar.TypeSymlink)
			if e.hdr.Linkname = symTarget(r, p, all); r.Intn(6) == 0 {
				e.hdr.Linkname += "/"
			}
		case c < 7 && hard:
			e.hdr = tarHdr(r, spell(r, p), tar.TypeLink)
			e.hdr.Linkname = "missing"
			if len(all) > 0 && r.Intn(30) > 0 {
				e.hdr.Linkname = spell(r, all[r.Intn(len(all))])
			}
		default:
			e.hdr = tarHdr(r, spell(r, p), tar.TypeReg)
			e.data = vBytes(r, []int{0, 1, 5, 511, 512, 513, 1024, 1500, r.Intn(5000)}[r.Intn(9)])
		}
		ents = append(ents, e)
		all = append(all, p)
	}
	if r.Intn(6) == 0 {
		k := r.Intn(len(ents) + 1)
		g := tEnt{hdr: &tar.Header{Typeflag: tar.TypeXGlobalHeader, PAXRecords: map[string]string{"comment": "x"}}}
		ents = append(ents[:k], append([]tEnt{g}, ents[k:]...)...)
	}
	if r.Intn(6) == 0 {
		k := r.Intn(len(ents) + 1)
		g := tEnt{hdr: &tar.Header{Typeflag: tar.TypeDir, Name: "./", Mode: 0o700}}
		ents = append(ents[:k], append([]tEnt{g}, ents[k:]...)...)
	}
	return ents
}

func symTarget(r *rand.Rand, p string, all []string) string {
	q := tarPath(r, 2)
	if len(all) > 0 && r.Intn(4) > 0 {
		q = all[r.Intn(len(all))]
	}
	up := strings.Repeat("../", strings.Count(p, "/"))
	switch r.Intn(8) {
	case 0:
		return "/" + q
	case 1:
		return up + q
	case 2:
		return q[strings.LastIndex(q, "/")+1:]
	case 3:
		return "../../../../" + q
	case 4:
		return "./" + q
	case 5:
		return ".."
	case 6:
		return "/"
	}
	return up + q
}

// buildSome builds the entries that archive/tar can write.
func buildSome(ents []tEnt) ([]byte, []tEnt) {
	var ok []tEnt
	for _, e := range ents {
		if _, err := build([]tEnt{e}); err == nil {
			ok = append(ok, e)
		}
	}
	b, err := build(ok)
	if err != nil {
		return nil, nil
	}
	return b, ok
}

// ---------- C12 ----------

func TestVerifC12(t *testing.T) {
	r := vRand(12)
	for i := 0; i < vScale(3000, 60000); i++ {
		b, ents := buildSome(tarEnts(r, 1+r.Intn(12), i%2 == 0, i%5 == 0))
		if b == nil {
			continue
		}
		openModel(t, b, describe(ents), []int{100, 4096, 1}[min(2, r.Intn(20))])
		if r.Intn(3) == 0 && len(b) > 1024 { // without the trailer, or with things after it
			openModel(t, b[:len(b)-1024], describe(ents)+" without a trailer", 512)
			openModel(t, append(bytes.Clone(b), vBytes(r, 700)...), describe(ents)+" followed by other bytes", 512)
		}
	}
	// every order of a few related entries
	base := []tEnt{
		{hdr: &tar.Header{Typeflag: tar.TypeDir, Name: "d/", Mode: 0o700, Uid: 7}},
		{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: "d/e/f", Mode: 0o600}, data: []byte("one")},
		{hdr: &tar.Header{Typeflag: tar.TypeDir, Name: "d/e", Mode: 0o711, Gid: 8}},
		{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: "d/e/f", Mode: 0o640}, data: []byte("second")},
		{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: "d.e", Mode: 0o644}, data: []byte("third")},
	}
	var perm func(k int)
	perm = func(k int) {
		if k == len(base) {
			for n := 1; n <= len(base); n++ {
				b, err := build(base[:n])
				if err != nil {
					t.Fatal(err)
				}
				openModel(t, b, describe(base[:n]), 100)
			}
			return
		}
		for i := k; i < len(base); i++ {
			base[k], base[i] = base[i], base[k]
			perm(k + 1)
			base[k], base[i] = base[i], base[k]
		}
	}
	perm(0)
	// a large directory and deep nesting
	var big []tEnt
	for i := 0; i < 400; i++ {
		big = append(big, tEnt{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: fmt.Sprintf("d/%d", r.Intn(100000)), Mode: 0o644}, data: vBytes(r, i*3)})
	}
	big = append(big, tEnt{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: strings.Repeat("q/", 200) + "f", Mode: 0o644}, data: []byte("deep")})
	b, _ := build(big)
	openModel(t, b, describe(big), 1000)
	// the archives of the test suite, and corrupted ones
	fs, _ := filepath.Glob("testdata/*.tar")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil || len(b) > 1<<20 {
			continue
		}
		openModel(t, b, f, 333)
		for i := 0; i < vScale(60, 1500); i++ {
			c := bytes.Clone(b)
			for k := 0; k <= r.Intn(3); k++ {
				c[r.Intn(len(c))] = []byte{0, '/', '.', '7', 0xff, byte(r.Intn(256))}[r.Intn(6)]
			}
			fixSums(c, r)
			openModel(t, c, fmt.Sprintf("%s with changed bytes (seed %d, number %d)", f, vSeed(), i), 333)
		}
	}
	for i := 0; i < vScale(1500, 30000); i++ {
		b, ents := buildSome(tarEnts(r, 1+r.Intn(4), true, true))
		if len(b) == 0 {
			continue
		}
		for k := 0; k <= r.Intn(3); k++ {
			h := 512 * r.Intn(len(b)/512)
			b[h+[]int{0, 1, 100, 104, 124, 130, 134, 156, 157, 257, 265, r.Intn(512)}[r.Intn(12)]] = []byte{0, '/', '.', '7', '0', '2', '5', 0xff, byte(r.Intn(256))}[r.Intn(9)]
		}
		fixSums(b, r)
		openModel(t, b, describe(ents)+" with changed bytes; "+quote(b), 333)
	}
}

// fixSums corrects the header checksums, mostly.
func fixSums(b []byte, r *rand.Rand) {
	if r.Intn(8) == 0 {
		return
	}
	for o := 0; o+512 <= len(b); o += 512 {
		h := b[o : o+512]
		if string(h[257:262]) != "ustar" {
			continue
		}
		copy(h[148:156], "        ")
		sum := 0
		for _, c := range h {
			sum += int(c)
		}
		copy(h[148:156], fmt.Sprintf("%06o\x00 ", sum))
	}
}

// ---------- C13 ----------

func TestVerifC13(t *testing.T) {
	r := vRand(13)
	check := func(in string, fsys *tarfs.FS, root *tNode, p string) {
		n, res, links := refResolve(root, p)
		if res == resUnspecified {
			return
		}
		vCount("paths", 1)
		if links > 1 {
			vCount("paths with several links", 1)
		}
		in = fmt.Sprintf("%q in %s", p, in)
		vWithin(t, 20*time.Second, func() string { return in }, func() {
			fi, err := fsys.Stat(p)
			if (err == nil) != (res == resOK) {
				vBad(t, in, "Stat: %v, want %d (0: found, 1: none, 2: loop)", err, res)
			}
			f, err := fsys.Open(p)
			if (err == nil) != (res == resOK) {
				vBad(t, in, "Open: %v, want %d (0: found, 1: none, 2: loop)", err, res)
			}
			des, err := fsys.ReadDir(p)
			if (err == nil) != (res == resOK && n.typ == tar.TypeDir) {
				vBad(t, in, "ReadDir: %v, want %d (0: found, 1: none, 2: loop)", err, res)
			}
			if res == resOK {
				if w := sameInfo(fi, n, ""); w != "" {
					vBad(t, in, "Stat: %s", w)
				}
				if fi, err := f.Stat(); err != nil || sameInfo(fi, n, "") != "" {
					vBad(t, in, "Stat of the open file: %v", err)
				}
				if n.typ == tar.TypeDir && !n.hard && len(des) != len(n.kids) {
					vBad(t, in, "ReadDir lists %d entries, want %d", len(des), len(n.kids))
				}
				for _, d := range des {
					if !n.hard && n.kids[d.Name()] == nil {
						vBad(t, in, "ReadDir lists %q", d.Name())
					}
				}
				if n.typ == tar.TypeReg {
					if b, err := vReadAll(f, 512); err != nil || !bytes.Equal(b, n.data) {
						vBad(t, in, "reads %d bytes (%v), want %d", len(b), err, len(n.data))
					}
				}
			}
			// the link itself
			c := refCanon(p)
			if c == "" {
				return
			}
			dir, base := "", c
			if i := strings.LastIndex(c, "/"); i >= 0 {
				dir, base = c[:i], c[i+1:]
			}
			d, res, _ := refResolve(root, dir)
			if res == resUnspecified {
				return
			}
			var k *tNode
			if d != nil {
				k = d.kids[base]
			}
			fi, err = fsys.StatLink(p)
			if (err == nil) != (k != nil) {
				vBad(t, in, "StatLink: %v", err)
			}
			if k != nil {
				if w := sameInfo(fi, k, k.name); w != "" {
					vBad(t, in, "StatLink: %s", w)
				}
			}
			l, err := fsys.ReadLink(p)
			if (err == nil) != (k != nil && k.typ == tar.TypeSymlink) {
				vBad(t, in, "ReadLink: %v", err)
			}
			if err == nil && l != k.hdr.Linkname {
				vBad(t, in, "ReadLink is %q, want %q", l, k.hdr.Linkname)
			}
		})
	}
	paths := func(root *tNode, depth int) []string {
		var out []string
		var rec func(p string, n *tNode, k int)
		rec = func(p string, n *tNode, k int) {
			out = append(out, p)
			if k == 0 {
				return
			}
			if n.typ == tar.TypeSymlink {
				if n, _, _ = refResolve(root, p); n == nil {
					out = append(out, p+"/a")
					return
				}
			}
			for _, c := range n.names() {
				if len(out) < 400 {
					rec(refCanon(p+"/"+c), n.kids[c], k-1)
				}
			}
		}
		rec("", root, depth)
		return out
	}
	link := func(n, to string) tEnt {
		return tEnt{hdr: &tar.Header{Typeflag: tar.TypeSymlink, Name: n, Linkname: to, Mode: 0o777}}
	}
	file := func(n string) tEnt {
		return tEnt{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644}, data: []byte("contents of " + n)}
	}
	fixed := [][]tEnt{
		{link("l", "l")}, {link("a", "b"), link("b", "a")}, {link("d/l", "../d/l"), file("d/f")}, {link("d/l", "."), file("d/f")}, {link("d/l", ".."), file("d/f")},
		{link("d/l", "/d"), file("d/f")}, {link("d/l", "../.."), file("f"), file("d/f")}, {link("d/l", "/../../f"), file("f"), file("d/f")}, {link("d/l", ""), file("d/f")},
		{link("d/l", "../../../../d/./f"), file("f"), file("d/f")}, {link("l", "d/e"), link("d/e/up", "../f"), file("d/f"), file("f"), link("d/e/self", "up")},
		{link("l", "/d//e/"), file("d/e/f"), link("d/e/abs", "/f"), file("f")}, {link("d", "e"), file("e/f"), link("e/g", "../d/f")},
		{link("x/l", "y/../../f"), file("f"), file("x/y/f"), file("x/f")}, {link("x/l", "k/../f"), link("x/k", "../z/w"), file("z/w/f"), file("z/f"), file("x/f"), file("f")},
		{link("l", "missing/../f"), file("f")}, {link("l", "./f"), file("f"), link("d/l", "./f"), file("d/f")},
	}
	for n := 38; n <= 43; n++ { // chains
		var c []tEnt
		for i := 0; i < n; i++ {
			c = append(c, link(fmt.Sprintf("l%02d", i), fmt.Sprintf("l%02d", i+1)))
		}
		c = append(c, file(fmt.Sprintf("l%02d", n)))
		fixed = append(fixed, c)
		var e []tEnt // n links in one path
		e = append(e, link("d/l", "."), file("d/f"))
		fixed = append(fixed, e)
	}
	for i := 0; i < len(fixed)+vScale(900, 15000); i++ {
		var ents []tEnt
		if i < len(fixed) {
			ents = fixed[i]
		} else {
			ents = tarEnts(r, 2+r.Intn(10), true, false)
		}
		b, ents := buildSome(ents)
		if b == nil {
			continue
		}
		fsys, root := openModel(t, b, describe(ents), 512)
		if root == nil {
			continue
		}
		for _, p := range paths(root, 5) {
			check(describe(ents), fsys, root, p)
		}
		for _, k := range []int{39, 40, 41} {
			check(describe(ents), fsys, root, "d/"+strings.Repeat("l/", k)+"f")
		}
		for j := 0; j < 20; j++ {
			check(describe(ents), fsys, root, spell(r, tarPath(r, 4)))
		}
	}
}

// ---------- C14 ----------

func TestVerifC14(t *testing.T) {
	r := vRand(14)
	hl := func(n, to string) tEnt {
		return tEnt{hdr: &tar.Header{Typeflag: tar.TypeLink, Name: n, Linkname: to, Mode: 0o111, Uid: 5}}
	}
	file := func(n string) tEnt {
		return tEnt{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o640, Uid: 12, Gid: 13, ModTime: time.Unix(1234567, 0)}, data: []byte("contents of " + n)}
	}
	sym := func(n, to string) tEnt {
		return tEnt{hdr: &tar.Header{Typeflag: tar.TypeSymlink, Name: n, Linkname: to, Mode: 0o777}}
	}
	fixed := [][]tEnt{
		{hl("a", "a")}, {hl("a", "b")}, {hl("a", "b"), hl("b", "a")}, {hl("a", "b"), hl("b", "c"), hl("c", "b"), file("f")}, {file("f"), hl("a", "./f"), hl("d/b", "/a"), hl("c", "d//b")},
		{hl("a", "f"), file("f")}, {file("f"), hl("a", "f"), file("f")}, {sym("s", "f"), hl("a", "s"), file("f"), hl("b", "a")}, {file("a"), hl("a", "f"), file("f")}, {hl("a", "f"), file("a"), file("f")},
		{file("d/f"), hl("d/g", "d/f"), hl("h", "d/g")}, {hl("x/y/z", "f"), file("f"), sym("x/y/s", "z")}, {hl("a", "missing"), file("f")}, {hl("a", "b"), hl("b", "missing"), file("f")},
		{file("f"), hl("f", "f")}, {file("f"), hl("g", "f"), hl("f", "g")}, {hl("a", "../f"), file("f")}, {hl("a", ""), file("f")}, {hl("d/a", "f"), file("d/f")},
	}
	for _, n := range []int{2, 3, 5, 50} {
		var c, d []tEnt
		for i := 0; i < n; i++ {
			c = append(c, hl(fmt.Sprintf("l%02d", i), fmt.Sprintf("l%02d", i+1)))
		}
		c = append(c, file(fmt.Sprintf("l%02d", n)))
		for i := range c {
			d = append(d, c[len(c)-1-i])
		}
		loop := append(append([]tEnt{}, c[:n]...), hl(fmt.Sprintf("l%02d", n), "l01"))
		fixed = append(fixed, c, d, loop)
	}
	for i := 0; i < len(fixed)+vScale(1200, 20000); i++ {
		var ents []tEnt
		if i < len(fixed) {
			ents = fixed[i]
		} else {
			ents = tarEnts(r, 2+r.Intn(9), i%3 == 0, true)
		}
		b, ents := buildSome(ents)
		if b == nil {
			continue
		}
		for k := 0; k < 4; k++ { // the order of map iteration varies
			openModel(t, b, describe(ents), 512)
		}
	}
}

// ---------- C15 ----------

func tarSource(r *rand.Rand) *vNode {
	root := vTree(r, 3, 6, func() string { return tarNames[r.Intn(len(tarNames))] }, func() int {
		return []int{0, 1, 511, 512, 513, r.Intn(3000), 10240}[r.Intn(7)]
	}, true)
	root.walk(".", func(p string, n *vNode) {
		n.mtime = time.Unix(int64(r.Intn(1<<31)), int64(r.Intn(2))*int64(r.Intn(1000000000)))
		if r.Intn(2) == 0 {
			n.sys, _, _ = vOwner(r)
		}
	})
	return root
}

// sameSource compares an opened archive with the source.
func sameSource(fsys *tarfs.FS, root *vNode, step int) (why string) {
	root.walk(".", func(p string, n *vNode) {
		if why != "" {
			return
		}
		if n.mode.IsDir() {
			des, err := fsys.ReadDir(p)
			if err != nil {
				why = fmt.Sprintf("ReadDir(%q): %v", p, err)
				return
			}
			var got, want []string
			for _, d := range des {
				got = append(got, d.Name())
			}
			for _, k := range n.kids {
				want = append(want, k.name)
			}
			if len(got) != len(want) || strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				why = fmt.Sprintf("ReadDir(%q) lists %q, want %q", p, got, want)
				return
			}
		}
		if p == "." {
			return
		}
		fi, err := fsys.StatLink(p)
		if err != nil {
			why = fmt.Sprintf("StatLink(%q): %v", p, err)
			return
		}
		if fi.Mode() != n.mode {
			why = fmt.Sprintf("%q has mode %v, want %v", p, fi.Mode(), n.mode)
			return
		}
		if d := fi.ModTime().Sub(n.mtime); d >= time.Second || d <= -time.Second {
			why = fmt.Sprintf("%q has mtime %v, want %v", p, fi.ModTime(), n.mtime)
			return
		}
		if n.mode&fs.ModeSymlink != 0 {
			if l, err := fsys.ReadLink(p); err != nil || l != n.target {
				why = fmt.Sprintf("ReadLink(%q) is %q, %v; want %q", p, l, err, n.target)
			}
			return
		}
		if n.mode.IsRegular() {
			f, err := fsys.Open(p)
			if err != nil {
				why = fmt.Sprintf("Open(%q): %v", p, err)
				return
			}
			if b, err := vReadAll(f, step); err != nil || !bytes.Equal(b, n.data) || fi.Size() != int64(len(n.data)) {
				why = fmt.Sprintf("%q delivers %d bytes (%v), reports %d, want %d", p, len(b), err, fi.Size(), len(n.data))
			}
		}
	})
	return
}

func TestVerifC15(t *testing.T) {
	r := vRand(15)
	one := func(root *vNode, chunk int) {
		src := newVFS(root)
		src.chunk = chunk
		dst := newDst()
		if err := tarfs.Create(dst, src); err != nil {
			vCount("refused", 1)
			return
		}
		vCount("created", 1)
		in := "source " + root.describe()
		fsys, err := tarfs.Open(newRA(dst.b))
		if err != nil {
			vBad(t, in, "what was created cannot be opened: %v", err)
		}
		if w := sameSource(fsys, root, 512); w != "" {
			vBad(t, in, "%s", w)
		}
		// and again, from the archive itself
		dst2 := newDst()
		if err := tarfs.Create(dst2, fsys); err != nil {
			vBad(t, in, "creating an archive of the archive: %v", err)
		}
		fsys2, err := tarfs.Open(newRA(dst2.b))
		if err != nil {
			vBad(t, in, "the archive of the archive cannot be opened: %v", err)
		}
		if w := sameSource(fsys2, root, 4096); w != "" {
			vBad(t, in, "the archive of the archive: %s", w)
		}
	}
	one(vDir("."), 0)
	for _, n := range append([]string{"a/b", "-"}, tarNames...) {
		root := vDir(".")
		d := root
		for _, c := range strings.Split(n, "/") {
			k := d.add(vDir(c))
			k.mtime = time.Unix(5, 0)
			d = k
		}
		f := d.add(vFile("f", []byte("x")))
		f.mtime = time.Unix(7, 0)
		g := root.add(vFile(n+"2", []byte("y")))
		g.mtime = time.Unix(8, 0)
		if strings.Contains(n, "/") {
			root.kids = root.kids[:1]
		}
		one(root, 0)
	}
	for _, l := range []string{".", "..", "/", "./x", "x/", "//x", "x//y", "../x", strings.Repeat("long/", 50), " x", "x ", "a\\b", "é"} {
		root := vDir(".")
		d := root.add(vDir("d"))
		d.mtime = time.Unix(7, 0)
		root.add(vLink("l", l)).mtime = time.Unix(7, 0)
		d.add(vLink("l", l)).mtime = time.Unix(7, 0)
		one(root, 0)
	}
	for _, s := range []int64{1, 1<<31 - 1, 1 << 31, 1<<33 - 1, 1 << 33, -1, -1000000} {
		root := vDir(".")
		root.add(vFile("f", nil)).mtime = time.Unix(s, 0)
		one(root, 0)
	}
	for i := 0; i < vScale(700, 15000); i++ {
		one(tarSource(r), []int{0, 1, 700}[min(2, r.Intn(9))])
	}
}

// ---------- C16 ----------

func TestVerifC16(t *testing.T) {
	r := vRand(16)
	for i := 0; i < vScale(60, 1500); i++ {
		root := tarSource(r)
		base := newDst()
		src := newVFS(root)
		src.chunk = []int{0, 100, 20000}[i%3]
		if tarfs.Create(base, src) != nil {
			continue
		}
		in := "source " + root.describe()
		fsys, err := tarfs.Open(newRA(base.b))
		if err != nil {
			vBad(t, in, "Create succeeds, but the output cannot be opened: %v", err)
		}
		if w := sameSource(fsys, root, 512); w != "" {
			vBad(t, in, "Create succeeds, but the output is not complete: %s", w)
		}
		if n := len(base.b); n < 1024 || n%512 != 0 || !bytes.Equal(base.b[n-1024:], make([]byte, 1024)) {
			vBad(t, in, "Create succeeds, but the archive does not end with its trailer (%d bytes)", n)
		}
		for k := 0; k < base.n; k++ {
			for _, part := range []bool{false, true} {
				dst := newDst()
				dst.fail, dst.part = k, part
				dst.once, dst.err = i%2 == 1, vFault(k+i)
				if err := tarfs.Create(dst, newVFS(root)); err == nil && dst.failed {
					vBad(t, in, "write %d of %d fails, Create succeeds", k, base.n)
				}
				vCount("write faults", 1)
			}
		}
		ops := int(*src.ops)
		for k := 0; k < ops; k++ {
			s := newVFS(root)
			s.chunk = src.chunk
			n, hit := 0, ""
			s.fault = func(op, p string) error {
				n++
				if n == k+1 {
					hit = op + " " + p
					return vFault(k + i)
				}
				return nil
			}
			if err := tarfs.Create(newDst(), s); err == nil && hit != "" {
				vBad(t, in, "operation %d of the source (%s) fails, Create succeeds", k, hit)
			}
			vCount("source faults", 1)
		}
		root.walk(".", func(p string, n *vNode) {
			if n.mode&fs.ModeSymlink != 0 {
				if err := tarfs.Create(newDst(), vPlain{newVFS(root)}); err == nil {
					vBad(t, in, "the source cannot deliver the target of %q, Create succeeds", p)
				}
			}
			if !n.mode.IsRegular() {
				return
			}
			for _, d := range []int64{-1, 1, 2, 511, 512, 1000} {
				if int64(len(n.data))+d < 0 {
					continue
				}
				n.size = int64(len(n.data)) + d
				if err := tarfs.Create(newDst(), newVFS(root)); err == nil {
					vBad(t, in, "%q reports %d bytes and delivers %d, Create succeeds", p, n.size, len(n.data))
				}
				n.size = -1
				vCount("wrong sizes", 1)
			}
		})
	}
}

// ---------- C17 ----------

func TestVerifC17(t *testing.T) {
	r := vRand(17)
	// every file yields its declared size, and its own bytes, or an error
	readAll := func(in string, fsys *tarfs.FS, whole map[string][]byte) {
		_ = fs.WalkDir(fsys, ".", func(p string, d fs.DirEntry, err error) error {
			if err != nil || !d.Type().IsRegular() {
				return nil
			}
			f, err := fsys.Open(p)
			if err != nil {
				return nil
			}
			fi, err := f.Stat()
			if err != nil {
				return nil
			}
			b, err := vReadAll(f, 300)
			if err == nil && int64(len(b)) != fi.Size() {
				vBad(t, in, "%q has %d bytes, but %d are declared, and there is no error", p, len(b), fi.Size())
			}
			if w, ok := whole[p]; err == nil && ok && !bytes.Equal(b, w) {
				vBad(t, in, "%q has other contents than in the whole archive, and there is no error", p)
			}
			vCount("files", 1)
			return nil
		})
	}
	var archives [][]byte
	for i := 0; i < vScale(25, 400); i++ {
		b, _ := buildSome(tarEnts(r, 1+r.Intn(5), false, i%3 == 0))
		if b != nil {
			archives = append(archives, b)
		}
	}
	for _, f := range []string{"testdata/gnu.tar", "testdata/sparse-formats.tar", "testdata/pax.tar"} {
		if b, err := os.ReadFile(f); err == nil {
			archives = append(archives, b)
		}
	}
	for _, b := range archives {
		whole := map[string][]byte{}
		ents, err := refEntries(b)
		if err != nil {
			continue
		}
		last := map[string]byte{}
		for _, e := range ents {
			whole[refCanon(e.hdr.Name)] = e.data
			last[refCanon(e.hdr.Name)] = e.hdr.Typeflag
		}
		once := map[string]int{}
		for _, e := range ents {
			once[refCanon(e.hdr.Name)]++
		}
		for n := range whole {
			if once[n] != 1 || (last[n] != tar.TypeReg && last[n] != tar.TypeGNUSparse) {
				delete(whole, n) // which one is left depends on the cut
			}
		}
		cut := 0
		for cut < len(b) {
			c := b[:cut]
			in := fmt.Sprintf("the first %d bytes of %s", cut, quote(b))
			ra := newRA(c)
			ra.eof = cut%2 == 0
			fsys, err := tarfs.Open(ra)
			vCount("cuts", 1)
			if err == nil {
				if got, rerr := refEntries(c); rerr != nil {
					vBad(t, in, "opens, but it is cut short within an entry: %v", rerr)
				} else if len(got) > len(ents) {
					vBad(t, in, "more entries than in the whole")
				}
				readAll(in, fsys, whole)
			}
			cut += []int{1, 37, 101, 256}[r.Intn(4)]
			if r.Intn(3) == 0 {
				cut = (cut + 511) / 512 * 512
			}
		}
		for k := int64(0); k < 300; k++ {
			ra := newRA(b)
			ra.fail, ra.part = k, k%2 == 0
			fsys, err := tarfs.Open(ra)
			if ra.n > k && err == nil {
				vBad(t, quote(b), "read %d fails, Open succeeds", k)
			}
			if err == nil { // now it fails
				ra.fail = ra.n
				for j := int64(0); j < 20; j++ {
					ra.fail = ra.n + j
					readAll(fmt.Sprintf("reads fail from number %d on; %s", j, quote(b)), fsys, whole)
				}
				break
			}
			vCount("reader faults", 1)
		}
		if fsys, err := tarfs.Open(newRA(b)); err == nil {
			readAll(quote(b), fsys, whole)
		}
		for at := int64(1); at < int64(len(b)); at += 97 {
			ra := newRA(b)
			fsys, err := tarfs.Open(ra)
			if err != nil {
				break
			}
			ra.at, ra.part = at, true
			readAll(fmt.Sprintf("reads at offset %d fail; %s", at, quote(b)), fsys, whole)
		}
	}
}

// ---------- C18 ----------

func TestVerifC18(t *testing.T) {
	r := vRand(18)
	names := []string{"a", "b", ".a", "..a", "...", "a.", "a b", " a", "a ", "a..b", ".a.", "A", "a\\b", "é", "b/c", "b/.c", "b/..c", "b/ c", ".b/c", "..b/c", " b/c", "b /c"}
	var ents []tEnt
	for i, n := range names {
		if n == "b" {
			continue
		}
		ents = append(ents, tEnt{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: 0o644}, data: fmt.Appendf(nil, "%02d %s", i, n)})
	}
	b, err := build(ents)
	if err != nil {
		t.Fatal(err)
	}
	fsys, root := openModel(t, b, describe(ents), 100)
	try := func(p string) {
		vCount("spellings", 1)
		n, res, _ := refResolve(root, p)
		in := fmt.Sprintf("%q with the names %q", p, names)
		f, err := fsys.Open(p)
		if (err == nil) != (res == resOK) {
			vBad(t, in, "Open: %v, but it denotes %q", err, refCanon(p))
		}
		if err == nil && n.typ == tar.TypeReg {
			if d, err := vReadAll(f, 10); err != nil || !bytes.Equal(d, n.data) {
				vBad(t, in, "delivers %q, want %q", d, n.data)
			}
		}
		fi, err := fsys.Stat(p)
		if (err == nil) != (res == resOK) {
			vBad(t, in, "Stat: %v, but it denotes %q", err, refCanon(p))
		}
		if err == nil && sameInfo(fi, n, "") != "" {
			vBad(t, in, "Stat: %s", sameInfo(fi, n, ""))
		}
		if fi, err = fsys.StatLink(p); (err == nil) != (res == resOK) {
			vBad(t, in, "StatLink: %v, but it denotes %q", err, refCanon(p))
		}
		if err == nil && sameInfo(fi, n, n.name) != "" {
			vBad(t, in, "StatLink: %s", sameInfo(fi, n, n.name))
		}
		if _, err := fsys.ReadDir(p); (err == nil) != (res == resOK && n.typ == tar.TypeDir) {
			vBad(t, in, "ReadDir: %v, but it denotes %q", err, refCanon(p))
		}
		if _, err := fsys.ReadLink(p); err == nil {
			vBad(t, in, "ReadLink succeeds")
		}
	}
	parts := append([]string{".", "..", "", "zz"}, names...)
	for _, x := range parts {
		for _, p := range []string{"%s", "/%s", "./%s", "%s/", "%s/.", "//%s//", "../%s", "../../%s", "/./%s", "zz/../%s", "%s/zz/..", "./../%s/./", "x/y/../../%s"} {
			try(strings.ReplaceAll(p, "%s", x))
		}
		for _, y := range parts {
			try(x + "/" + y)
			try("/" + x + "/../" + y)
			try(x + "/../" + y + "/")
		}
	}
	for i := 0; i < 3000; i++ {
		var cs []string
		for k := 0; k <= r.Intn(5); k++ {
			cs = append(cs, parts[r.Intn(len(parts))])
		}
		try(strings.Join(cs, "/"))
	}
	// entries and hard links stored under other spellings, links through them
	for _, n := range names {
		for _, p := range []string{"/%s", "./%s", "%s/", "/../%s", "./%s/.", "//%s", "q/../%s", "../../%s"} {
			s := strings.ReplaceAll(p, "%s", n)
			ents := []tEnt{{hdr: &tar.Header{Typeflag: tar.TypeReg, Name: strings.TrimSuffix(s, "/"), Mode: 0o644}, data: []byte("xy")},
				{hdr: &tar.Header{Typeflag: tar.TypeLink, Name: "hard", Linkname: s}}, {hdr: &tar.Header{Typeflag: tar.TypeDir, Name: "dir/" + s, Mode: 0o700}}}
			b, ents := buildSome(ents)
			if b != nil {
				openModel(t, b, describe(ents), 100)
			}
		}
	}
	for i := 0; i < vScale(400, 8000); i++ {
		if b, ents := buildSome(tarEnts(r, 2+r.Intn(8), true, true)); b != nil {
			openModel(t, b, describe(ents), 500)
		}
	}
}

// ---------- C23 ----------

func TestVerifC23(t *testing.T) {
	r := vRand(23)
	for round := 0; round < vScale(40, 400); round++ {
		b, ents := buildSome(tarEnts(r, 4+r.Intn(10), true, true))
		if b == nil {
			continue
		}
		in := describe(ents)
		fsys, root := openModel(t, b, in, 512)
		if root == nil {
			continue
		}
		if w := diff(fsys, root, 99); w != "" {
			vBad(t, in, "the second time: %s", w)
		}
		var all []string
		var rec func(p string, n *tNode)
		rec = func(p string, n *tNode) {
			all = append(all, p)
			for c, k := range n.kids {
				rec(refCanon(p+"/"+c), k)
			}
			if n.typ != tar.TypeReg {
				return
			}
			f, e1 := fsys.Open(p)
			g, e2 := fsys.Open("/" + p)
			if e1 != nil || e2 != nil {
				vBad(t, in, "Open(%q): %v %v", p, e1, e2)
			}
			half := make([]byte, len(n.data)/2)
			if _, err := io.ReadFull(f, half); err != nil || !bytes.Equal(half, n.data[:len(half)]) {
				vBad(t, in, "first half of %q: %v", p, err)
			}
			if b, err := vReadAll(g, 50); err != nil || !bytes.Equal(b, n.data) {
				vBad(t, in, "a second handle of %q delivers %d bytes (error %v), want %d", p, len(b), err, len(n.data))
			}
			g.Close()
			if b, err := vReadAll(f, 50); err != nil || !bytes.Equal(b, n.data[len(half):]) {
				vBad(t, in, "second half of %q: %v", p, err)
			}
		}
		rec("", root)
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 2; j++ {
					for _, p := range all {
						if fi, err := fsys.Stat(p); err == nil {
							_, _, _ = fi.Name(), fi.Mode(), fi.ModTime()
						}
						_, _ = fsys.ReadLink(p)
						_, _ = fsys.StatLink(p)
					}
					if w := diff(fsys, root, 300); w != "" {
						fmt.Printf("FAILING INPUT: %s\nconcurrently: %s\n", in, w)
						panic("concurrent use")
					}
				}
			}()
		}
		wg.Wait()
		if w := diff(fsys, root, 77); w != "" {
			vBad(t, in, "afterwards: %s", w)
		}
		vCount("rounds", 1)
	}
}
