package arfs_test

// Bounded replay of the ar properties on the real code.

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/arfs"
)

// ---------- an independent reader of the format ----------

type refEntry struct {
	name            string
	mtime, uid, gid int64
	mode            fs.FileMode
	data            []byte
}

func refMode(m int64) fs.FileMode {
	r := fs.FileMode(m & 0o777)
	if m&0o4000 != 0 {
		r |= fs.ModeSetuid
	}
	if m&0o2000 != 0 {
		r |= fs.ModeSetgid
	}
	if m&0o1000 != 0 {
		r |= fs.ModeSticky
	}
	switch m & 0o170000 {
	case 0o040000:
		r |= fs.ModeDir
	case 0o010000:
		r |= fs.ModeNamedPipe
	case 0o120000:
		r |= fs.ModeSymlink
	case 0o060000:
		r |= fs.ModeDevice
	case 0o020000:
		r |= fs.ModeDevice | fs.ModeCharDevice
	case 0o140000:
		r |= fs.ModeSocket
	}
	return r
}

// refCanon removes empty and "." components and resolves "..".
func refCanon(s string) string {
	var out []string
	for _, c := range strings.Split(s, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
		default:
			out = append(out, c)
		}
	}
	return strings.Join(out, "/")
}

func refNum(f []byte) (int64, bool) {
	s := strings.TrimSpace(string(f))
	if s == "" {
		return 0, true
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func refParse(b []byte) (ents []refEntry, why string) {
	if len(b) < 8 || string(b[:8]) != "!<arch>\n" {
		return nil, "magic"
	}
	for o := int64(8); ; {
		rest := b[min(o, int64(len(b))):]
		if len(rest) == 0 || (len(rest) == 1 && rest[0] == '\n') {
			return ents, ""
		}
		if len(rest) < 60 {
			return nil, "short header"
		}
		h := rest[:60]
		if h[58] != '`' || h[59] != '\n' {
			return nil, "terminator"
		}
		mode, err := strconv.ParseUint(strings.TrimSpace(string(h[40:48])), 8, 32)
		if err != nil {
			return nil, "mode"
		}
		e := refEntry{mode: refMode(int64(mode))}
		var size int64
		for _, f := range []struct {
			p    *int64
			a, b int
		}{{&e.mtime, 16, 28}, {&e.uid, 28, 34}, {&e.gid, 34, 40}, {&size, 48, 58}} {
			var ok bool
			if *f.p, ok = refNum(h[f.a:f.b]); !ok {
				return nil, "number"
			}
		}
		e.name = refCanon(strings.TrimRight(string(h[:16]), " "))
		if size < 0 {
			return nil, "negative size"
		}
		if e.name == "" || strings.Contains(e.name, "/") {
			return nil, "name"
		}
		if int64(len(rest))-60 < size {
			return nil, "short content"
		}
		e.data = rest[60 : 60+size]
		ents = append(ents, e)
		o += 60 + size + size%2
	}
}

// checkOpened compares an opened archive with the entries it should have.
func checkOpened(t *testing.T, input string, fsys *arfs.FS, ents []refEntry, step int) {
	t.Helper()
	want := map[string]refEntry{}
	var names []string
	for _, e := range ents {
		if _, ok := want[e.name]; !ok {
			names = append(names, e.name)
		}
		want[e.name] = e
	}
	sort.Strings(names)
	for _, root := range []string{".", "", "/"} {
		des, err := fsys.ReadDir(root)
		if err != nil {
			vBad(t, input, "ReadDir(%q): %v", root, err)
		}
		var got []string
		for _, d := range des {
			got = append(got, d.Name())
		}
		if !reflect.DeepEqual(got, names) {
			vBad(t, input, "ReadDir(%q) lists %q, want %q", root, got, names)
		}
		for i, d := range des {
			fi, err := d.Info()
			if err != nil {
				vBad(t, input, "Info: %v", err)
			}
			checkInfo(t, input, fi, want[names[i]])
			if d.IsDir() != fi.IsDir() || d.Type() != fi.Mode().Type() {
				vBad(t, input, "entry %q: IsDir %v Type %v, mode %v", d.Name(), d.IsDir(), d.Type(), fi.Mode())
			}
		}
	}
	for _, n := range names {
		w := want[n]
		fi, err := fsys.Stat(n)
		if err != nil {
			vBad(t, input, "Stat(%q): %v", n, err)
		}
		checkInfo(t, input, fi, w)
		f, err := fsys.Open(n)
		if err != nil {
			vBad(t, input, "Open(%q): %v", n, err)
		}
		fi, err = f.Stat()
		if err != nil {
			vBad(t, input, "File.Stat(%q): %v", n, err)
		}
		checkInfo(t, input, fi, w)
		b, err := vReadAll(f, step)
		if err != nil || !bytes.Equal(b, w.data) {
			vBad(t, input, "contents of %q: %d bytes %q..., error %v, want %d bytes %q...", n, len(b), b[:min(len(b), 20)], err, len(w.data), w.data[:min(len(w.data), 20)])
		}
		if err := f.Close(); err != nil {
			vBad(t, input, "Close: %v", err)
		}
		vCount("files", 1)
	}
	for _, n := range []string{"no-such-file", names0(names) + "x", names0(names) + "/x"} {
		if _, ok := want[refCanon(n)]; ok {
			continue
		}
		if _, err := fsys.Open(n); err == nil {
			vBad(t, input, "Open(%q) succeeds", n)
		}
		if _, err := fsys.Stat(n); err == nil {
			vBad(t, input, "Stat(%q) succeeds", n)
		}
	}
}

func names0(n []string) string {
	if len(n) == 0 {
		return "a"
	}
	return n[0]
}

func checkInfo(t *testing.T, input string, fi fs.FileInfo, w refEntry) {
	t.Helper()
	e, ok := fi.Sys().(*arfs.Entry)
	if !ok {
		vBad(t, input, "Sys() is a %T", fi.Sys())
	}
	if fi.Name() != w.name || fi.Size() != int64(len(w.data)) || fi.Mode() != w.mode || fi.ModTime().Unix() != w.mtime || e.Uid != w.uid || e.Gid != w.gid || fi.IsDir() != w.mode.IsDir() {
		vBad(t, input, "entry is name=%q size=%d mode=%v mtime=%d uid=%d gid=%d, want name=%q size=%d mode=%v mtime=%d uid=%d gid=%d",
			fi.Name(), fi.Size(), fi.Mode(), fi.ModTime().Unix(), e.Uid, e.Gid, w.name, len(w.data), w.mode, w.mtime, w.uid, w.gid)
	}
}

// ---------- generators ----------

func arHdr(name, mtime, uid, gid, mode, size string) string {
	return fmt.Sprintf("%-16s%-12s%-6s%-6s%-8s%-10s`\n", name, mtime, uid, gid, mode, size)
}

var arNames = []string{"a", "b", "hello.txt", "0123456789abcdef", "./x", "/y", "..", ".", "a b", " lead", ".hidden", "...", "..a", "x/", "d/f", "a/../b", "//z//", "a.", "\xff\xfe", "A", "debian-binary", "/ q", "../up"}

func arRandom(r *rand.Rand) []byte {
	var sb bytes.Buffer
	sb.WriteString("!<arch>\n")
	for n := r.Intn(5); n > 0; n-- {
		name := arNames[r.Intn(len(arNames))]
		if r.Intn(2) == 0 {
			name = arNames[r.Intn(5)]
		}
		size := []int{0, 1, 2, 3, 10, 60, 61, 100, 5000}[r.Intn(9)]
		data := vBytes(r, size)
		if r.Intn(3) == 0 { // contents that look like headers
			data = []byte(arHdr("evil", "1", "2", "3", "644", "0"))
			size = len(data)
		}
		num := func(max int) string {
			switch r.Intn(12) {
			case 0:
				return ""
			case 1:
				return "-1"
			case 2:
				return "+5"
			case 3:
				return " 7"
			case 4:
				return []string{"x", "1_0", "0x1", "1 2", "1.5", "٣"}[r.Intn(6)]
			}
			return strconv.Itoa(r.Intn(max))
		}
		mode := []string{"644", "100644", "755", "4755", "2755", "1777", "0", "7777", "040755", "120777", "177777", "8", "", "-1", "37777777", "020600", "060600", "010600", "140600"}[r.Intn(19)]
		if r.Intn(2) == 0 {
			mode = "100644"
		}
		sz := strconv.Itoa(size)
		if r.Intn(15) == 0 {
			sz = []string{"-1", "-2", "+3", "9999999999", "", "00012", "1e3"}[r.Intn(7)]
		}
		if len(name) > 16 {
			name = name[:16]
		}
		big := []int{1 << 31, 1 << 31, 1 << 33, 999999999999}[r.Intn(4)]
		sb.WriteString(arHdr(name, num(big), num(999999), num(999999), mode, sz))
		sb.Write(data)
		if size%2 == 1 && r.Intn(10) > 0 {
			sb.WriteByte("\n\n\n\x00"[r.Intn(4)])
		}
	}
	b := sb.Bytes()
	switch r.Intn(10) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		b = append(b, '\n')
	case 2:
		b = append(b, vBytes(r, r.Intn(70))...)
	case 3:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		}
	case 4:
		if len(b) > 68 {
			b[8+r.Intn(60)] = byte(r.Intn(256))
		}
	}
	return b
}

func quote(b []byte) string {
	if len(b) > 2000 {
		return fmt.Sprintf("ar archive of %d bytes starting %q", len(b), b[:2000])
	}
	return fmt.Sprintf("ar archive %q", b)
}

// ---------- C11 ----------

func openChecked(t *testing.T, b []byte, ra *vRA) (*arfs.FS, error) {
	t.Helper()
	var fsys *arfs.FS
	var err error
	vWithin(t, 20*time.Second, func() string { return quote(b) }, func() { fsys, err = arfs.Open(ra) })
	return fsys, err
}

func TestVerifC11(t *testing.T) {
	r := vRand(11)
	var cases [][]byte
	add := func(ents ...string) { cases = append(cases, []byte("!<arch>\n"+strings.Join(ents, ""))) }
	h := func(name, size string) string { return arHdr(name, "1", "2", "3", "100644", size) }
	add()
	add("\n")
	add("\n\n")
	add("x")
	add(h("a", "0"))
	add(h("a", "1") + "x\n")
	add(h("a", "1") + "x")
	add(h("a", "1") + "xx")
	add(h("a", "1"))
	add(h("a", "2")+"xx", h("b", "0"))
	add(h("a", "2")+"xx", h("a", "3")+"yyy\n")
	add(h("a", "3")+"yyy\n", h("a", "2")+"xx")
	add(h("a", "1")+"x\n", h("a", "1")+"y\n", h("b", "1")+"z\n", h("./a", "0"))
	add(h("a", "-1"))
	add(h("a", "-62"))
	add(h("a", "-60")+"x", h("b", "0"))
	add(h("a", ""))
	add(h("", "0"))
	add(h("/", "0"))
	add(h("a/b", "0"))
	add(h("../a", "0"))
	add(h("a", "9999999999"))
	add(h("a", "0") + "\n")
	add(h("a", "0") + "\n" + h("b", "0"))
	for i := 0; i < 60; i++ { // every header byte
		for _, c := range []byte{0, ' ', '0', '9', '-', '+', '/', '.', 'x', 0x60, 0x0a, 0x80, '8', '\t'} {
			b := []byte("!<arch>\n" + h("ab", "2") + "xy" + h("c", "1") + "z\n")
			b[8+i] = c
			cases = append(cases, b)
		}
	}
	for i := 0; i < 8; i++ {
		b := []byte("!<arch>\n")
		b[i]++
		cases = append(cases, b)
	}
	for i := 0; i < vScale(6000, 120000); i++ {
		cases = append(cases, arRandom(r))
	}
	full := []byte("!<arch>\n" + h("ab", "3") + "xyz\n" + h("c", "4") + "zzzz")
	for i := range full {
		cases = append(cases, full[:i])
	}
	for i, b := range cases {
		ents, why := refParse(b)
		ra := newRA(b)
		ra.eof = i%2 == 1
		fsys, err := openChecked(t, b, ra)
		if (err == nil) != (why == "") {
			vBad(t, quote(b), "Open: %v, but the archive is %s", err, map[bool]string{true: "well formed", false: "bad: " + why}[why == ""])
		}
		vCount("archives", 1)
		if err != nil {
			continue
		}
		vCount("accepted", 1)
		checkOpened(t, quote(b), fsys, ents, []int{1, 7, 4096}[i%3])
	}
	// failures of the reader
	for i := 0; i < vScale(300, 3000); i++ {
		b := arRandom(r)
		_, why := refParse(b)
		for k := int64(0); ; k++ {
			ra := newRA(b)
			ra.fail, ra.part = k, k%2 == 1
			fsys, err := openChecked(t, b, ra)
			if ra.n <= k {
				break
			}
			if err == nil && why != "" {
				vBad(t, quote(b), "Open succeeds with the reader failing from call %d on, but the archive is bad: %s", k, why)
			}
			_ = fsys
			vCount("reader faults", 1)
		}
	}
}

// ---------- C09, C10 ----------

func arNamesGen(r *rand.Rand) func() string {
	return func() string {
		switch r.Intn(8) {
		case 0:
			return strings.Repeat("n", 1+r.Intn(18))
		case 1:
			return []string{".hidden", "..x", "a b", " a", "a ", "\xff\xfe", "é", "日本語", "x.tar.gz", "~", "#", "a\\b", "-", "`", "a\nb", "é23456789012345", "日本語日本語"}[r.Intn(17)]
		}
		return fmt.Sprintf("f%d", r.Intn(50))
	}
}

func arSource(r *rand.Rand) *vNode {
	root := vTree(r, 0, 6, arNamesGen(r), func() int { return []int{0, 1, 2, 3, 59, 60, 61, 1000, 1001, 70000}[r.Intn(10)] }, false)
	for _, k := range root.kids {
		k.mtime = time.Unix([]int64{0, 1, 1700000000, -1, 1 << 40, 999999999999}[r.Intn(6)], int64(r.Intn(2))*500)
		switch r.Intn(3) {
		case 0:
			k.sys, _, _ = vOwner(r)
		case 1:
			k.sys = &arfs.Entry{Uid: int64(r.Intn(200000)), Gid: int64(r.Intn(200000))}
		}
	}
	if r.Intn(40) == 0 {
		root.add(vDir("zdir"))
	}
	if r.Intn(40) == 0 {
		root.add(vLink("zlink", "f1"))
	}
	if r.Intn(25) == 0 && len(root.kids) > 0 {
		k := root.kids[r.Intn(len(root.kids))]
		k.size = int64(max(0, len(k.data)+[]int{-1, 1, 2, -2, 100}[r.Intn(5)]))
	}
	return root
}

func owner(k *vNode) (int64, int64) {
	switch s := k.sys.(type) {
	case *tar.Header:
		return int64(s.Uid), int64(s.Gid)
	case *arfs.Entry:
		return s.Uid, s.Gid
	}
	return 0, 0
}

// representable says whether the source fits in an ar archive.
func representable(root *vNode) bool {
	for _, k := range root.kids {
		u, g := owner(k)
		size := vInfo{k}.Size()
		if !k.mode.IsRegular() || len(k.name) > 16 || strings.HasSuffix(k.name, " ") || refCanon(k.name) != k.name ||
			len(strconv.FormatInt(k.mtime.Unix(), 10)) > 12 || len(strconv.FormatInt(u, 10)) > 6 || len(strconv.FormatInt(g, 10)) > 6 ||
			size != int64(len(k.data)) || len(strconv.FormatInt(size, 10)) > 10 {
			return false
		}
	}
	return true
}

func wantEntries(root *vNode) []refEntry {
	var r []refEntry
	for _, k := range root.kids {
		u, g := owner(k)
		r = append(r, refEntry{name: k.name, mtime: k.mtime.Unix(), uid: u, gid: g, mode: k.mode, data: k.data})
	}
	return r
}

func TestVerifC09(t *testing.T) {
	r := vRand(9)
	for i := 0; i < vScale(1500, 30000); i++ {
		root := arSource(r)
		src := newVFS(root)
		src.chunk = []int{0, 1, 100}[i%3]
		dst := newDst()
		if err := arfs.Create(dst, src); err != nil {
			continue
		}
		vCount("created", 1)
		in := "source " + root.describe()
		fsys, err := arfs.Open(newRA(dst.b))
		if err != nil {
			vBad(t, in, "the archive that was written cannot be opened: %v", err)
		}
		checkOpened(t, in, fsys, wantEntries(root), []int{1, 7, 4096}[i%3])
		// and once more, from the archive itself
		dst2 := newDst()
		if err := arfs.Create(dst2, fsys); err != nil {
			continue
		}
		if !bytes.Equal(dst.b, dst2.b) {
			vBad(t, in, "the archive of the opened archive differs")
		}
	}
}

// strictAr checks the output byte by byte.
func strictAr(b []byte, want []refEntry) string {
	if len(b) < 8 || string(b[:8]) != "!<arch>\n" {
		return "no magic"
	}
	o := 8
	field := func(s string, w int) string { return s + strings.Repeat(" ", w-len(s)) }
	for _, e := range want {
		if len(b)-o < 60 {
			return fmt.Sprintf("no header for %q", e.name)
		}
		h := string(b[o : o+60])
		for _, f := range []struct {
			what string
			a, b int
			want string
		}{{"name", 0, 16, e.name}, {"time", 16, 28, strconv.FormatInt(e.mtime, 10)}, {"owner", 28, 34, strconv.FormatInt(e.uid, 10)}, {"group", 34, 40, strconv.FormatInt(e.gid, 10)},
			{"size", 48, 58, strconv.Itoa(len(e.data))}, {"end", 58, 60, "`\n"}} {
			if len(f.want) > f.b-f.a || h[f.a:f.b] != field(f.want, f.b-f.a) {
				return fmt.Sprintf("%s of %q is %q, want %q", f.what, e.name, h[f.a:f.b], f.want)
			}
		}
		m, err := strconv.ParseUint(strings.TrimRight(h[40:48], " "), 8, 32)
		if err != nil || refMode(int64(m)) != e.mode {
			return fmt.Sprintf("mode of %q is %q, want %v", e.name, h[40:48], e.mode)
		}
		o += 60
		if len(b)-o < len(e.data) || !bytes.Equal(b[o:o+len(e.data)], e.data) {
			return fmt.Sprintf("contents of %q", e.name)
		}
		o += len(e.data)
		if len(e.data)%2 == 1 {
			if o >= len(b) || b[o] != '\n' {
				return fmt.Sprintf("padding of %q", e.name)
			}
			o++
		}
	}
	if o != len(b) {
		return "trailing bytes"
	}
	return ""
}

func TestVerifC10(t *testing.T) {
	r := vRand(10)
	one := func(root *vNode) {
		src := newVFS(root)
		dst := newDst()
		err := arfs.Create(dst, src)
		in := "source " + root.describe()
		vCount("sources", 1)
		if !representable(root) {
			if err == nil {
				vBad(t, in, "Create succeeds, but the source cannot be represented; output %q", dst.b[:min(len(dst.b), 300)])
			}
			return
		}
		if err != nil {
			vBad(t, in, "Create: %v", err)
		}
		if why := strictAr(dst.b, wantEntries(root)); why != "" {
			vBad(t, in, "output: %s; %q", why, dst.b[:min(len(dst.b), 300)])
		}
		vCount("created", 1)
	}
	for n := 1; n <= 18; n++ {
		root := vDir(".")
		root.add(vFile(strings.Repeat("x", n), []byte("abc")))
		one(root)
	}
	for _, n := range []string{"é", "日本語", "日本語日本語", "ééééééééé", "a ", " a", "a b", ".a", "..a", "a.", "a\\b"} {
		root := vDir(".")
		root.add(vFile(n, []byte("abc")))
		root.add(vFile("z", []byte("q")))
		one(root)
	}
	for _, id := range []int{0, 9, 99999, 999999, 1000000, -1, -99999, -100000, 1 << 31} {
		for _, g := range []bool{false, true} {
			root := vDir(".")
			f := root.add(vFile("f", []byte("x")))
			if g {
				f.sys = &arfs.Entry{Gid: int64(id)}
			} else {
				f.sys = &tar.Header{Uid: id}
			}
			one(root)
		}
	}
	for _, s := range []int64{-1, 0, 999999999999, 1000000000000, -99999999999, -100000000000, 253402300800} {
		root := vDir(".")
		f := root.add(vFile("f", nil))
		f.mtime = time.Unix(s, 0)
		one(root)
	}
	for _, d := range []int64{-3, -1, 1, 2, 1000} {
		for _, n := range []int{3, 4} {
			root := vDir(".")
			f := root.add(vFile("f", make([]byte, n)))
			f.size = max(0, int64(n)+d)
			root.add(vFile("g", []byte("more")))
			one(root)
		}
	}
	for _, k := range []*vNode{vDir("d"), vLink("l", "f")} {
		root := vDir(".")
		root.add(vFile("f", nil))
		root.add(k)
		one(root)
	}
	for _, m := range vPerms {
		root := vDir(".")
		root.add(vFile("f", nil)).mode = m
		one(root)
	}
	for i := 0; i < vScale(1500, 30000); i++ {
		one(arSource(r))
	}
}

// ---------- C16 ----------

func TestVerifC16(t *testing.T) {
	r := vRand(16)
	for i := 0; i < vScale(150, 2500); i++ {
		root := arSource(r)
		base := newDst()
		src := newVFS(root)
		src.chunk = []int{0, 100, 20000}[i%3]
		if arfs.Create(base, src) != nil {
			continue
		}
		if why := strictAr(base.b, wantEntries(root)); why != "" {
			vBad(t, "source "+root.describe(), "Create succeeds, but the output is incomplete: %s", why)
		}
		for k := 0; k < base.n; k++ {
			for _, part := range []bool{false, true} {
				dst := newDst()
				dst.fail, dst.part = k, part
				dst.once, dst.err = i%2 == 1, vFault(k+i)
				if err := arfs.Create(dst, newVFS(root)); err == nil && dst.failed {
					vBad(t, "source "+root.describe(), "write %d fails, Create succeeds", k)
				}
				vCount("write faults", 1)
			}
		}
		ops := int(*src.ops)
		for k := 0; k < ops; k++ {
			s := newVFS(root)
			s.chunk = src.chunk
			n, hit := 0, ""
			s.fault = func(op, p string) error {
				n++
				if n == k+1 {
					hit = op + " " + p
					return vFault(k + i)
				}
				return nil
			}
			if err := arfs.Create(newDst(), s); err == nil && hit != "" {
				vBad(t, "source "+root.describe(), "operation %d of the source (%s) fails, Create succeeds", k, hit)
			}
			vCount("source faults", 1)
			if n := *s.open; n != 0 {
				vCount("leaked handles", int(n))
			}
		}
		for _, kid := range root.kids {
			for _, d := range []int64{-1, 1, 2, 1000} {
				if int64(len(kid.data))+d < 0 {
					continue
				}
				kid.size = int64(len(kid.data)) + d
				if err := arfs.Create(newDst(), newVFS(root)); err == nil {
					vBad(t, "source "+root.describe(), "%q reports %d bytes and delivers %d, Create succeeds", kid.name, kid.size, len(kid.data))
				}
				kid.size = -1
				vCount("wrong sizes", 1)
			}
		}
	}
}

// ---------- C17 ----------

func TestVerifC17(t *testing.T) {
	r := vRand(17)
	readAll := func(in string, fsys *arfs.FS) {
		des, err := fsys.ReadDir(".")
		if err != nil {
			return
		}
		for _, d := range des {
			f, err := fsys.Open(d.Name())
			if err != nil {
				continue
			}
			fi, err := f.Stat()
			if err != nil {
				continue
			}
			b, err := vReadAll(f, 1000)
			if err == nil && int64(len(b)) != fi.Size() {
				vBad(t, in, "%q has %d bytes, but %d are declared, and there is no error", d.Name(), len(b), fi.Size())
			}
			vCount("files", 1)
		}
	}
	for i := 0; i < vScale(60, 1000); i++ {
		root := arSource(r)
		for _, k := range root.kids {
			if len(k.data) > 300 {
				k.data = k.data[:300]
			}
		}
		dst := newDst()
		if arfs.Create(dst, newVFS(root)) != nil || len(root.kids) == 0 {
			continue
		}
		full := wantEntries(root)
		for cut := 0; cut < len(dst.b); cut++ {
			b := dst.b[:cut]
			in := fmt.Sprintf("the first %d bytes of %s", cut, quote(dst.b))
			ra := newRA(b)
			ra.eof = cut%2 == 0
			fsys, err := openChecked(t, b, ra)
			vCount("cuts", 1)
			if err != nil {
				continue
			}
			readAll(in, fsys)
			// what is there is complete
			ents, why := refParse(b)
			if why != "" {
				vBad(t, in, "opened, but it is cut short: %s", why)
			}
			if len(ents) > len(full) {
				vBad(t, in, "more entries than in the whole")
			}
		}
		for k := int64(0); k < 200; k++ {
			ra := newRA(dst.b)
			ra.fail, ra.part = k, k%2 == 0
			fsys, err := openChecked(t, dst.b, ra)
			in := fmt.Sprintf("reads fail from number %d on; %s", k, quote(dst.b))
			if err == nil {
				readAll(in, fsys)
			}
			if ra.n <= k {
				break
			}
			vCount("reader faults", 1)
		}
		for at := int64(1); at < int64(len(dst.b)); at += 7 {
			ra := newRA(dst.b)
			ra.at, ra.part = at, true
			if fsys, err := openChecked(t, dst.b, ra); err == nil {
				readAll(fmt.Sprintf("reads at offset %d fail; %s", at, quote(dst.b)), fsys)
			}
		}
	}
}

// ---------- C18 ----------

func TestVerifC18(t *testing.T) {
	names := []string{"a", "b", ".a", "..a", "...", "a.", "a b", " a", "a..b", ".a.", "..", "A", "a\\b", "é"}
	var sb strings.Builder
	sb.WriteString("!<arch>\n")
	var ents []refEntry
	for i, n := range names {
		if n == ".." {
			continue
		}
		data := fmt.Sprintf("%02d", i)
		sb.WriteString(n + strings.Repeat(" ", 16-len(n)) + arHdr("", "1", "2", "3", "644", "2")[16:] + data)
		ents = append(ents, refEntry{name: n, mtime: 1, uid: 2, gid: 3, mode: 0o644, data: []byte(data)})
	}
	b := []byte(sb.String())
	fsys, err := arfs.Open(newRA(b))
	if err != nil {
		vBad(t, quote(b), "Open: %v", err)
	}
	checkOpened(t, quote(b), fsys, ents, 100)
	want := map[string][]byte{}
	for _, e := range ents {
		want[e.name] = e.data
	}
	parts := append([]string{".", "..", "", "zz"}, names...)
	try := func(p string) {
		f, err := fsys.Open(p)
		vCount("spellings", 1)
		w, ok := want[refCanon(p)]
		if (err == nil) != ok {
			if refCanon(p) == "" {
				return
			}
			vBad(t, fmt.Sprintf("Open(%q) with the names %q", p, names), "error %v, but it denotes %q", err, refCanon(p))
		}
		if err == nil {
			if d, err := vReadAll(f, 10); err != nil || !bytes.Equal(d, w) {
				vBad(t, fmt.Sprintf("Open(%q)", p), "delivers %q, want %q", d, w)
			}
		}
		fi, err := fsys.Stat(p)
		if (err == nil) != (ok || refCanon(p) == "") {
			vBad(t, fmt.Sprintf("Stat(%q) with the names %q", p, names), "error %v, but it denotes %q", err, refCanon(p))
		}
		if err == nil && ok && fi.Name() != refCanon(p) {
			vBad(t, fmt.Sprintf("Stat(%q)", p), "is %q", fi.Name())
		}
		if _, err := fsys.ReadDir(p); (err == nil) != (refCanon(p) == "") {
			vBad(t, fmt.Sprintf("ReadDir(%q)", p), "error %v, but it denotes %q", err, refCanon(p))
		}
	}
	for _, x := range parts {
		for _, p := range []string{"%s", "/%s", "./%s", "%s/", "%s/.", "//%s//", "../%s", "../../%s", "/./%s", "zz/../%s", "%s/zz/..", "./../%s/./", "x/y/../../%s"} {
			try(strings.ReplaceAll(p, "%s", x))
		}
		for _, y := range parts {
			try(x + "/" + y)
			try("/" + x + "/../" + y)
		}
	}
	// entries stored under other spellings
	for _, n := range names {
		for _, p := range []string{"/%s", "./%s", "%s/", "/../%s", "./%s/.", "//%s"} {
			s := strings.ReplaceAll(p, "%s", n)
			if len(s) > 16 {
				continue
			}
			b := []byte("!<arch>\n" + s + strings.Repeat(" ", 16-len(s)) + arHdr("", "1", "2", "3", "644", "2")[16:] + "xy")
			ents, why := refParse(b)
			fsys, err := arfs.Open(newRA(b))
			if (err == nil) != (why == "") {
				vBad(t, quote(b), "Open: %v, want %q", err, why)
			}
			if err == nil {
				checkOpened(t, quote(b), fsys, ents, 100)
			}
		}
	}
}

// ---------- C23 ----------

func TestVerifC23(t *testing.T) {
	r := vRand(23)
	for round := 0; round < vScale(25, 250); round++ {
		root := arSource(r)
		dst := newDst()
		if arfs.Create(dst, newVFS(root)) != nil || len(root.kids) == 0 {
			continue
		}
		fsys, err := arfs.Open(newRA(dst.b))
		if err != nil {
			t.Fatal(err)
		}
		ents := wantEntries(root)
		in := "source " + root.describe()
		// sequentially, twice, and with two handles of each file at different positions
		checkOpened(t, in, fsys, ents, 100)
		for _, e := range ents {
			f, _ := fsys.Open(e.name)
			g, _ := fsys.Open("/" + e.name)
			half := make([]byte, len(e.data)/2)
			if _, err := io.ReadFull(f, half); err != nil || !bytes.Equal(half, e.data[:len(half)]) {
				vBad(t, in, "first half of %q: %v", e.name, err)
			}
			if b, err := vReadAll(g, 50); err != nil || !bytes.Equal(b, e.data) {
				vBad(t, in, "a second handle of %q delivers %d bytes (error %v), want %d", e.name, len(b), err, len(e.data))
			}
			if b, err := vReadAll(f, 50); err != nil || !bytes.Equal(b, e.data[len(half):]) {
				vBad(t, in, "second half of %q: %v", e.name, err)
			}
		}
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < 3; j++ {
					checkOpenedQuiet(in, fsys, ents)
				}
			}()
		}
		wg.Wait()
		checkOpened(t, in, fsys, ents, 64)
		vCount("rounds", 1)
	}
}

func checkOpenedQuiet(in string, fsys *arfs.FS, ents []refEntry) {
	fsys.ReadDir(".")
	for _, e := range ents {
		if fi, err := fsys.Stat(e.name); err == nil {
			_, _, _ = fi.Name(), fi.Mode(), fi.ModTime()
		}
		if f, err := fsys.Open(e.name); err == nil {
			b, err := vReadAll(f, 100)
			if err != nil || !bytes.Equal(b, e.data) {
				fmt.Printf("FAILING INPUT: %s\nconcurrent read of %q delivers %d bytes (error %v), want %d\n", in, e.name, len(b), err, len(e.data))
				panic("concurrent read")
			}
		}
	}
}
