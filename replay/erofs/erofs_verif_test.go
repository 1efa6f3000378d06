package erofs_test

// Bounded replay of the EROFS properties on the real code. The oracle is the
// parser and encoder below, written from the format's documentation.

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"math"
	"math/rand"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/dpeckett/archivefs/erofs"
)

var le = binary.LittleEndian

// ---------- an independent reader ----------

type rInode struct {
	nid        uint64
	off        int64
	hdr        int64
	ext        bool
	inline     bool
	mode       uint16
	size       uint64
	raw        uint32
	uid, gid   uint32
	nlink      uint32
	mtime      uint64
	nsec       uint32
	dataRanges [][2]int64
}

type rDirent struct {
	name string
	nid  uint64
	typ  uint8
}

type rImage struct {
	b      []byte
	bits   uint8
	bs     int64
	blocks uint32
	meta   int64
	root   uint64
	inodes uint64
	build  uint64
	bnsec  uint32
}

func (im *rImage) at(off, n int64) ([]byte, error) {
	if off < 0 || n < 0 || off > int64(len(im.b)) || n > int64(len(im.b))-off {
		return nil, fmt.Errorf("[%d, +%d) is out of the image", off, n)
	}
	return im.b[off : off+n], nil
}

func crcRaw(crc uint32, p []byte) uint32 {
	tab := crc32.MakeTable(crc32.Castagnoli)
	return ^crc32.Update(^crc, tab, p)
}

// sbCRC is the checksum of the superblock at 1024 for a block size.
func sbCRC(b []byte, bs int64) uint32 {
	end := 1024 + bs
	if bs > 1024 {
		end = bs
	}
	blk := append([]byte(nil), b[1024:end]...)
	le.PutUint32(blk[4:], 0)
	return crcRaw(^uint32(0), blk)
}

func rParse(b []byte) (*rImage, error) {
	im := &rImage{b: b}
	s, err := im.at(1024, 128)
	if err != nil {
		return nil, err
	}
	if le.Uint32(s) != 0xe0f5e1e2 {
		return nil, errors.New("bad magic")
	}
	im.bits = s[12]
	im.bs = 1 << im.bits
	im.root = uint64(le.Uint16(s[14:]))
	im.inodes = le.Uint64(s[16:])
	im.build = le.Uint64(s[24:])
	im.bnsec = le.Uint32(s[32:])
	im.blocks = le.Uint32(s[36:])
	im.meta = int64(le.Uint32(s[40:])) << im.bits
	return im, nil
}

func (im *rImage) inode(nid uint64) (*rInode, error) {
	off := im.meta + int64(nid)*32
	h, err := im.at(off, 32)
	if err != nil {
		return nil, err
	}
	n := &rInode{nid: nid, off: off, hdr: 32}
	f := le.Uint16(h)
	if f>>4 != 0 {
		return nil, fmt.Errorf("unknown format bits %#x", f)
	}
	n.ext = f&1 != 0
	if n.ext {
		n.hdr = 64
		if h, err = im.at(off, 64); err != nil {
			return nil, err
		}
	}
	switch f >> 1 & 7 {
	case 0:
	case 2:
		n.inline = true
	default:
		return nil, fmt.Errorf("data layout %d", f>>1&7)
	}
	if le.Uint16(h[2:]) != 0 {
		return nil, errors.New("xattrs")
	}
	n.mode = le.Uint16(h[4:])
	n.raw = le.Uint32(h[16:])
	if n.ext {
		n.size = le.Uint64(h[8:])
		n.uid, n.gid = le.Uint32(h[24:]), le.Uint32(h[28:])
		n.mtime, n.nsec = le.Uint64(h[32:]), le.Uint32(h[40:])
		n.nlink = le.Uint32(h[44:])
	} else {
		n.nlink = uint32(le.Uint16(h[6:]))
		n.size = uint64(le.Uint32(h[8:]))
		n.uid, n.gid = uint32(le.Uint16(h[24:])), uint32(le.Uint16(h[26:]))
		n.mtime, n.nsec = im.build, im.bnsec
	}
	if n.size > 1<<40 {
		return nil, errors.New("huge")
	}
	body := int64(n.size)
	if n.inline {
		tail := int64(n.size) % im.bs
		if tail == 0 || tail > im.bs-n.hdr {
			return nil, errors.New("bad tail")
		}
		body -= tail
	}
	if body > 0 {
		o := int64(n.raw) << im.bits
		n.dataRanges = append(n.dataRanges, [2]int64{o, o + body})
	}
	if n.inline {
		n.dataRanges = append(n.dataRanges, [2]int64{off + n.hdr, off + n.hdr + int64(n.size) - body})
	}
	return n, nil
}

func (im *rImage) data(n *rInode) ([]byte, error) {
	var r []byte
	for _, d := range n.dataRanges {
		p, err := im.at(d[0], d[1]-d[0])
		if err != nil {
			return nil, err
		}
		r = append(r, p...)
	}
	return r, nil
}

func (im *rImage) list(n *rInode) ([]rDirent, error) {
	b, err := im.data(n)
	if err != nil {
		return nil, err
	}
	var r []rDirent
	for len(b) > 0 {
		blk := b
		if int64(len(blk)) > im.bs {
			blk = blk[:im.bs]
		}
		b = b[len(blk):]
		if len(blk) < 12 {
			return nil, errors.New("short directory block")
		}
		no := int(le.Uint16(blk[8:]))
		if no < 12 || no%12 != 0 || no >= len(blk) {
			return nil, fmt.Errorf("nameoff0 %d", no)
		}
		for i := 0; i < no/12; i++ {
			e := blk[i*12:]
			s, t := int(le.Uint16(e[8:])), len(blk)
			if i+1 < no/12 {
				t = int(le.Uint16(e[20:]))
			}
			if s > t || t > len(blk) {
				return nil, errors.New("bad name offset")
			}
			name := string(blk[s:t])
			if i+1 == no/12 {
				name, _, _ = strings.Cut(name, "\x00")
			}
			if name == "" || len(name) > 255 || strings.Contains(name, "\x00") {
				return nil, fmt.Errorf("bad name %q", name)
			}
			if len(r) > 0 && r[len(r)-1].name >= name {
				return nil, fmt.Errorf("%q after %q", name, r[len(r)-1].name)
			}
			r = append(r, rDirent{name, le.Uint64(e), e[10]})
		}
	}
	return r, nil
}

var typOfFmt = map[uint16]uint8{0o100000: 1, 0o040000: 2, 0o020000: 3, 0o060000: 4, 0o010000: 5, 0o140000: 6, 0o120000: 7}

func goMode(m uint16) fs.FileMode {
	r := fs.FileMode(m & 0o777)
	switch m & 0o170000 {
	case 0o040000:
		r |= fs.ModeDir
	case 0o020000:
		r |= fs.ModeDevice | fs.ModeCharDevice
	case 0o060000:
		r |= fs.ModeDevice
	case 0o010000:
		r |= fs.ModeNamedPipe
	case 0o140000:
		r |= fs.ModeSocket
	case 0o120000:
		r |= fs.ModeSymlink
	}
	if m&0o4000 != 0 {
		r |= fs.ModeSetuid
	}
	if m&0o2000 != 0 {
		r |= fs.ModeSetgid
	}
	if m&0o1000 != 0 {
		r |= fs.ModeSticky
	}
	return r
}

func quote(b []byte) string {
	if len(b) > 9000 {
		return fmt.Sprintf("an image of %d bytes, seed %d", len(b), vSeed())
	}
	return "the image (base64) " + base64.StdEncoding.EncodeToString(b)
}

// ---------- an independent writer ----------

type wNode struct {
	vNode  *vNode
	parent *wNode
	kids   map[string]*wNode
	order  []*wNode
	name   string
	mode   uint16
	data   []byte
	ext    bool
	inline bool
	uid    uint32
	gid    uint32
	nlink  uint32
	mtime  uint64
	nsec   uint32
	noDots bool

	nid uint64
	raw uint32
}

type wOpts struct {
	bits   uint8
	meta   uint32 // extra blocks before the metadata
	sum    bool
	build  uint64
	bnsec  uint32
	rootAt int
}

func wDir(name string) *wNode {
	return &wNode{name: name, mode: 0o040755, kids: map[string]*wNode{}, nlink: 2}
}

func (n *wNode) put(k *wNode) *wNode {
	if n.kids[k.name] != nil {
		return n.kids[k.name]
	}
	k.parent = n
	n.kids[k.name] = k
	n.order = append(n.order, k)
	return k
}

func (n *wNode) walk(p string, f func(p string, n *wNode)) {
	f(p, n)
	for _, k := range n.order {
		k.walk(path.Join(p, k.name), f)
	}
}

type wEnt struct {
	name string
	n    *wNode
}

func (n *wNode) ents() []wEnt {
	var es []wEnt
	if !n.noDots {
		up := n.parent
		if up == nil {
			up = n
		}
		es = append(es, wEnt{".", n}, wEnt{"..", up})
	}
	for _, k := range n.order {
		es = append(es, wEnt{k.name, k})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].name < es[j].name })
	return es
}

// layoutDir splits a directory into blocks; nids are filled in later. The size
// depends only on the names and on the random choices.
func layoutDir(r *rand.Rand, es []wEnt, bs int) (blocks [][]wEnt, lastPad int) {
	var cur []wEnt
	used := 0
	early := r.Intn(2) == 0
	for _, e := range es {
		if used+12+len(e.name) > bs || (early && len(cur) > 0 && r.Intn(40) == 0) {
			blocks = append(blocks, cur)
			cur, used = nil, 0
		}
		cur = append(cur, e)
		used += 12 + len(e.name)
	}
	if len(cur) > 0 {
		blocks = append(blocks, cur)
	}
	room := bs - used
	switch r.Intn(4) {
	case 0:
		lastPad = 0
	case 1:
		lastPad = 1
	case 2:
		lastPad = room
	default:
		if room > 0 {
			lastPad = r.Intn(room)
		}
	}
	return blocks, min(lastPad, room)
}

func encodeDir(blocks [][]wEnt, lastPad, bs int) []byte {
	var out []byte
	for i, es := range blocks {
		var hd, nm []byte
		for _, e := range es {
			var d [12]byte
			le.PutUint64(d[:], e.n.nid)
			le.PutUint16(d[8:], uint16(12*len(es)+len(nm)))
			d[10] = typOfFmt[e.n.mode&0o170000]
			hd = append(hd, d[:]...)
			nm = append(nm, e.name...)
		}
		blk := append(hd, nm...)
		if i+1 < len(blocks) {
			blk = append(blk, make([]byte, bs-len(blk))...)
		} else {
			blk = append(blk, make([]byte, lastPad)...)
		}
		out = append(out, blk...)
	}
	return out
}

// wBuild encodes a tree as an image.
func wBuild(r *rand.Rand, root *wNode, o wOpts) []byte {
	bs := int64(1) << o.bits
	var all []*wNode
	root.walk(".", func(_ string, n *wNode) { all = append(all, n) })
	type dl struct {
		blocks [][]wEnt
		pad    int
	}
	dirs := map[*wNode]dl{}
	size := map[*wNode]int64{}
	for _, n := range all {
		size[n] = int64(len(n.data))
		if n.mode&0o170000 == 0o040000 && !(n.noDots && len(n.order) == 0) {
			b, p := layoutDir(r, n.ents(), int(bs))
			dirs[n] = dl{b, p}
			// all blocks but the last must be full; bounded padding in them too
			size[n] = int64(len(encodeDir(b, p, int(bs))))
		}
	}
	order := append([]*wNode(nil), all[1:]...)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	at := min(o.rootAt, len(order))
	order = append(order[:at:at], append([]*wNode{root}, order[at:]...)...)

	sbBlocks := uint32((1024 + 128 + bs - 1) / bs)
	metaAddr := sbBlocks + o.meta
	off := int64(0)
	for _, n := range order {
		if r.Intn(4) == 0 {
			off += 32 * int64(r.Intn(5))
		}
		hdr := int64(32)
		if n.ext {
			hdr = 64
		}
		tail := size[n] % bs
		if n.inline && (tail == 0 || tail > bs-hdr) {
			n.inline = false
		}
		if n.mode&0o170000 == 0o120000 && size[n] > bs-hdr {
			n.inline = false
		}
		if n.inline && off%bs+hdr+tail > bs {
			off = (off + bs - 1) / bs * bs
		}
		n.nid = uint64(off / 32)
		off += hdr
		if n.inline {
			off += tail
		}
		off = (off + 31) / 32 * 32
	}
	if root.nid > 0xffff {
		panic("root nid")
	}
	blk := metaAddr + uint32((off+bs-1)/bs)
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	for _, n := range order {
		body := size[n]
		if n.inline {
			body -= size[n] % bs
		}
		n.raw = blk
		if body == 0 {
			n.raw = []uint32{0, 0xffffffff, blk}[r.Intn(3)]
		}
		blk += uint32((body + bs - 1) / bs)
		blk += uint32(r.Intn(2))
	}
	img := make([]byte, int64(blk)*bs)
	for i := range img[1024+128:] {
		img[1024+128+i] = 0xa5 // unused bytes are not zero
	}
	for _, n := range order {
		d := n.data
		if l, ok := dirs[n]; ok {
			d = encodeDir(l.blocks, l.pad, int(bs))
		}
		h := img[int64(metaAddr)*bs+int64(n.nid)*32:]
		f := uint16(0)
		if n.inline {
			f |= 2 << 1
		}
		hdr := 32
		if n.ext {
			f |= 1
			hdr = 64
		}
		clear(h[:hdr])
		le.PutUint16(h, f)
		le.PutUint16(h[4:], n.mode)
		le.PutUint32(h[16:], n.raw)
		if n.ext {
			le.PutUint64(h[8:], uint64(len(d)))
			le.PutUint32(h[24:], n.uid)
			le.PutUint32(h[28:], n.gid)
			le.PutUint64(h[32:], n.mtime)
			le.PutUint32(h[40:], n.nsec)
			le.PutUint32(h[44:], n.nlink)
		} else {
			le.PutUint16(h[6:], uint16(n.nlink))
			le.PutUint32(h[8:], uint32(len(d)))
			le.PutUint16(h[24:], uint16(n.uid))
			le.PutUint16(h[26:], uint16(n.gid))
		}
		body := d
		if n.inline {
			t := len(d) % int(bs)
			copy(h[hdr:], d[len(d)-t:])
			body = d[:len(d)-t]
		}
		if len(body) > 0 {
			copy(img[int64(n.raw)*bs:], body)
		}
	}
	s := img[1024:]
	le.PutUint32(s, 0xe0f5e1e2)
	s[12] = o.bits
	le.PutUint16(s[14:], uint16(root.nid))
	le.PutUint64(s[16:], uint64(len(all)))
	le.PutUint64(s[24:], o.build)
	le.PutUint32(s[32:], o.bnsec)
	le.PutUint32(s[36:], blk)
	le.PutUint32(s[40:], metaAddr)
	if o.sum {
		le.PutUint32(s[8:], 1)
		le.PutUint32(s[4:], sbCRC(img, bs))
	}
	return img
}

// wRandom decorates a node with random metadata.
func wRandom(r *rand.Rand, n *wNode) *wNode {
	n.ext = r.Intn(2) == 0
	n.inline = r.Intn(2) == 0
	n.mode = n.mode&0o170000 | uint16(r.Intn(0o10000))
	n.nlink = uint32(1 + r.Intn(65535))
	n.uid, n.gid = uint32(r.Intn(65536)), uint32(r.Intn(65536))
	if n.ext {
		n.uid, n.gid, n.nlink = r.Uint32(), r.Uint32(), r.Uint32()
		n.mtime = uint64(r.Int63n(1 << 40))
		if r.Intn(4) == 0 {
			n.mtime = uint64(-r.Int63n(1 << 32))
		}
		n.nsec = uint32(r.Intn(1e9))
	}
	return n
}

func wNames(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("f%d", r.Intn(40))
	case 1:
		return strings.Repeat("n", 1+r.Intn(255))
	case 2:
		return []string{".", "..", "...", "-."}[r.Intn(4)] + []string{"", "a", ".", fmt.Sprint(r.Intn(20))}[r.Intn(4)]
	case 3:
		b := make([]byte, 1+r.Intn(8))
		for i := range b {
			if b[i] = byte(1 + r.Intn(255)); b[i] == '/' {
				b[i] = '0'
			}
		}
		return string(b)
	case 4:
		return string([]byte{"!-,+ "[r.Intn(5)], byte('a' + r.Intn(26))})
	default:
		return fmt.Sprintf("%c%06d", 'a'+rune(r.Intn(26)), r.Intn(1000000))
	}
}

func wTree(r *rand.Rand, depth, width int, sizes func() int) *wNode {
	root := wRandom(r, wDir("."))
	var fill func(d *wNode, depth int)
	fill = func(d *wNode, depth int) {
		n := r.Intn(width + 1)
		for i := 0; i < n; i++ {
			name := wNames(r)
			if name == "." || name == ".." || d.kids[name] != nil {
				continue
			}
			var k *wNode
			switch c := r.Intn(10); {
			case c < 2 && depth > 0:
				k = wRandom(r, wDir(name))
				k.noDots = r.Intn(8) == 0
				d.put(k)
				fill(k, depth-1)
				continue
			case c < 4:
				k = &wNode{name: name, mode: 0o120777, data: []byte(strings.Repeat("t", 1+r.Intn(400)))}
			case c < 5:
				k = &wNode{name: name, mode: []uint16{0o020644, 0o060644, 0o010644, 0o140644}[r.Intn(4)]}
			default:
				k = &wNode{name: name, mode: 0o100644, data: vBytes(r, sizes())}
			}
			d.put(wRandom(r, k))
		}
	}
	fill(root, depth)
	return root
}

// ---------- C01, C02, C03 ----------

func srcNames(r *rand.Rand) func() string {
	return func() string {
		n := wNames(r)
		if r.Intn(30) == 0 {
			n = strings.Repeat(string(rune('a'+r.Intn(26))), 255)
		}
		return n
	}
}

var edgeSizes = []int{0, 1, 2, 31, 32, 33, 1022, 1023, 1024, 1025, 2047, 4063, 4064, 4095, 4096, 4097, 8191, 8192, 8193, 12288}

func srcSizes(r *rand.Rand) func() int {
	return func() int {
		if r.Intn(3) == 0 {
			return r.Intn(1500)
		}
		return edgeSizes[r.Intn(len(edgeSizes))]
	}
}

func srcMeta(r *rand.Rand, root *vNode) {
	root.walk(".", func(_ string, n *vNode) {
		switch r.Intn(5) {
		case 0:
		case 1:
			n.mtime = time.Unix(r.Int63n(1<<33), int64(r.Intn(1e9)))
		case 2:
			n.mtime = time.Unix(-r.Int63n(1<<33), int64(r.Intn(1e9)))
		case 3:
			n.mtime = time.Unix(r.Int63n(1<<33), []int64{0, 1, 999999999}[r.Intn(3)]).UTC()
		case 4:
			n.mtime = time.Unix(0, 0)
		}
		switch r.Intn(4) {
		case 0:
			n.sys, _, _ = vOwner(r)
		case 1:
			n.sys = &syscall.Stat_t{Uid: r.Uint32(), Gid: r.Uint32()}
		case 2:
			n.sys = &syscall.Stat_t{Uid: []uint32{0, 65535, 65536, math.MaxUint32}[r.Intn(4)], Gid: uint32(r.Intn(1000))}
		}
	})
	root.mode = fs.ModeDir | vPerms[r.Intn(len(vPerms))]
}

// bigDirs adds directories that need many blocks.
func bigDir(r *rand.Rand, n int) *vNode {
	d := vDir("big")
	if r.Intn(3) == 0 {
		// blocks filled to the last byte, to one byte less, or to one byte more than there is
		used, full := 12+1+12+2, 4096
		n = max(n, 80)
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%05d", i)
			left := full - used - 12 - len(name) + []int{0, 0, 0, -1, 1}[r.Intn(5)]
			if k := r.Intn(200); left < 200 && len(name)+left > 0 {
				name += strings.Repeat("x", max(0, left))
				used = 0
			} else {
				name += strings.Repeat("y", min(k, left-30))
				used += 12 + len(name)
			}
			d.kids = append(d.kids, vFile(name, nil))
		}
		return d
	}
	w := []int{6, 40, 200, 250}[r.Intn(4)]
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%0*d", w, i)
		if r.Intn(3) == 0 {
			name = name[:1+r.Intn(len(name))] + fmt.Sprintf("x%d", i)
			if len(name) > 255 {
				name = name[:255]
			}
		}
		if d.kid(name) == nil {
			d.kids = append(d.kids, vFile(name, []byte{byte(i)}))
		}
	}
	sort.Slice(d.kids, func(i, j int) bool { return d.kids[i].name < d.kids[j].name })
	return d
}

func srcTrees(t *testing.T, salt int64, count int, f func(r *rand.Rand, root *vNode, in string)) {
	for i := 0; i < count; i++ {
		r := vRand(salt + int64(i))
		var root *vNode
		switch {
		case i < len(edgeSizes):
			root = vDir(".")
			root.add(vFile("a", vBytes(r, edgeSizes[i])))
			root.add(vLink("l", strings.Repeat("x", 1+edgeSizes[i]%4095)))
			root.add(vFile("z", vBytes(r, 7)))
		case i%5 == 0:
			root = vTree(r, 1, 4, srcNames(r), srcSizes(r), true)
			root.kids = append(root.kids, nil)
			root.kids = root.kids[:len(root.kids)-1]
			if root.kid("big") == nil {
				root.add(bigDir(r, []int{1, 15, 16, 17, 200, 900}[r.Intn(6)]))
			}
		default:
			root = vTree(r, 3, 1+r.Intn(14), srcNames(r), srcSizes(r), true)
		}
		srcMeta(r, root)
		f(r, root, fmt.Sprintf("the source (seed %d, number %d) %s", vSeed(), i, root.describe()))
	}
}

func create(t *testing.T, src fs.FS, in string) []byte {
	t.Helper()
	d := newDstAt()
	var err error
	vWithin(t, 60*time.Second, func() string { return in }, func() { err = erofs.Create(d, src) })
	if err != nil {
		vBad(t, in, "Create: %v", err)
	}
	vCount("images", 1)
	return d.b
}

func names(es []fs.DirEntry) []string {
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r
}

// sameTree compares an opened image with its source.
func sameTree(t *testing.T, fsys *erofs.Filesystem, root *vNode, in string, step int) {
	t.Helper()
	root.walk(".", func(p string, n *vNode) {
		vCount("entries", 1)
		fi, err := fsys.StatLink(p)
		if err != nil {
			vBad(t, in, "StatLink(%q): %v", p, err)
		}
		if fi.Mode().Type() != n.mode.Type() {
			vBad(t, in, "the type of %q is %v", p, fi.Mode())
		}
		switch {
		case n.mode.IsDir():
			es, err := fsys.ReadDir(p)
			if err != nil {
				vBad(t, in, "ReadDir(%q): %v", p, err)
			}
			var want []string
			for _, k := range n.kids {
				want = append(want, k.name)
			}
			if fmt.Sprintf("%q", names(es)) != fmt.Sprintf("%q", want) {
				vBad(t, in, "ReadDir(%q) lists %q", p, names(es))
			}
			for i, e := range es {
				if e.IsDir() != n.kids[i].mode.IsDir() || e.Type().Type() != n.kids[i].mode.Type() {
					vBad(t, in, "the entry %q of %q has type %v", e.Name(), p, e.Type())
				}
			}
		case n.mode&fs.ModeSymlink != 0:
			if len(n.target) > 4095 {
				break
			}
			if s, err := fsys.ReadLink(p); err != nil || s != n.target {
				vBad(t, in, "ReadLink(%q) = %q, %v, not %q", p, s, err, n.target)
			}
		default:
			f, err := fsys.Open(p)
			if err != nil {
				vBad(t, in, "Open(%q): %v", p, err)
			}
			b, err := vReadAll(f, step)
			if err != nil || !bytes.Equal(b, n.data) {
				vBad(t, in, "the contents of %q (%d bytes) differ (%d bytes, %v)", p, len(n.data), len(b), err)
			}
		}
	})
}

func TestVerifC01(t *testing.T) {
	srcTrees(t, 100, vScale(120, 3000), func(r *rand.Rand, root *vNode, in string) {
		src := newVFS(root)
		src.chunk = []int{0, 1000, 7}[r.Intn(3)]
		b := create(t, src, in)
		ra := newRA(b)
		ra.eof = r.Intn(2) == 0
		fsys, err := erofs.Open(ra)
		if err != nil {
			vBad(t, in, "Open: %v", err)
		}
		sameTree(t, fsys, root, in, []int{100000, 1000, 511}[r.Intn(3)])
		if r.Intn(4) == 0 {
			// once more, from the image
			long := false
			root.walk(".", func(_ string, n *vNode) { long = long || len(n.target) > 4095 })
			if !long {
				b2 := create(t, fsys, "the image of "+in)
				f2, err := erofs.Open(newRA(b2))
				if err != nil {
					vBad(t, in, "Open of a copy: %v", err)
				}
				sameTree(t, f2, root, "the image of "+in, 4096)
			}
		}
	})
	// long links
	for _, n := range []int{1, 1023, 1024, 1025, 4031, 4032, 4033, 4064, 4094, 4095} {
		root := vDir(".")
		root.add(vLink("l", strings.Repeat("/abcdefg", 600)[:n]))
		fsys, err := erofs.Open(newRA(create(t, newVFS(root), "a link")))
		if err != nil {
			t.Fatal(err)
		}
		sameTree(t, fsys, root, fmt.Sprintf("a source with one link of %d bytes", n), 100)
	}
	// names that cannot be stored, and a source without ReadLink
	for _, n := range []string{strings.Repeat("n", 256), strings.Repeat("n", 4000), "a\x00b", "\x00"} {
		root := vDir(".")
		root.add(vFile(n, []byte("x")))
		d := newDstAt()
		if err := erofs.Create(d, newVFS(root)); err == nil {
			fsys, err := erofs.Open(newRA(d.b))
			if err != nil {
				vBad(t, root.describe(), "Open: %v", err)
			}
			sameTree(t, fsys, root, root.describe(), 100)
		}
	}
	root := vDir(".")
	root.add(vLink("l", "x"))
	if err := erofs.Create(newDstAt(), vPlain{newVFS(root)}); err == nil {
		vBad(t, "a source with a link that cannot be read", "Create succeeds")
	}
}

func checkMeta(t *testing.T, fi fs.FileInfo, p string, n *vNode, owner bool, in string) {
	t.Helper()
	if fi.Mode() != n.mode {
		vBad(t, in, "the mode of %q is %v, not %v", p, fi.Mode(), n.mode)
	}
	if fi.IsDir() != n.mode.IsDir() {
		vBad(t, in, "IsDir of %q", p)
	}
	if !n.mode.IsDir() && fi.Size() != (vInfo{n}).Size() {
		vBad(t, in, "the size of %q is %d", p, fi.Size())
	}
	if !n.mtime.IsZero() && !fi.ModTime().Equal(n.mtime) {
		vBad(t, in, "the modification time of %q is %v, not %v", p, fi.ModTime(), n.mtime)
	}
	ino, ok := fi.Sys().(*erofs.Inode)
	if !ok {
		vBad(t, in, "Sys() of %q is a %T", p, fi.Sys())
	}
	switch s := n.sys.(type) {
	case *tar.Header:
		if int(ino.UID()) != s.Uid || int(ino.GID()) != s.Gid {
			vBad(t, in, "the owner of %q is %d:%d, not %d:%d", p, ino.UID(), ino.GID(), s.Uid, s.Gid)
		}
	case *syscall.Stat_t:
		if ino.UID() != s.Uid || ino.GID() != s.Gid {
			vBad(t, in, "the owner of %q is %d:%d, not %d:%d", p, ino.UID(), ino.GID(), s.Uid, s.Gid)
		}
	}
}

func TestVerifC02(t *testing.T) {
	srcTrees(t, 200, vScale(120, 3000), func(r *rand.Rand, root *vNode, in string) {
		b := create(t, newVFS(root), in)
		fsys, err := erofs.Open(newRA(b))
		if err != nil {
			vBad(t, in, "Open: %v", err)
		}
		check := func(fsys *erofs.Filesystem, in string) {
			root.walk(".", func(p string, n *vNode) {
				vCount("entries", 1)
				fi, err := fsys.StatLink(p)
				if err != nil {
					vBad(t, in, "StatLink(%q): %v", p, err)
				}
				checkMeta(t, fi, p, n, true, in)
				if n.mode.IsDir() {
					es, err := fsys.ReadDir(p)
					if err != nil {
						vBad(t, in, "ReadDir(%q): %v", p, err)
					}
					for _, e := range es {
						fi, err := e.Info()
						if k := n.kid(e.Name()); err != nil || k == nil {
							vBad(t, in, "Info of %q in %q: %v", e.Name(), p, err)
						} else {
							checkMeta(t, fi, path.Join(p, k.name), k, true, in)
						}
					}
				}
			})
		}
		check(fsys, in)
		if r.Intn(3) == 0 {
			long := false
			root.walk(".", func(_ string, n *vNode) { long = long || len(n.target) > 4095 })
			if !long {
				f2, err := erofs.Open(newRA(create(t, fsys, in)))
				if err != nil {
					vBad(t, in, "Open of a copy: %v", err)
				}
				check(f2, "the image of "+in)
			}
		}
	})
	// many links
	for _, n := range []int{65532, 65533, 65534, 70000} {
		root := vDir(".")
		for i := 0; i < n; i++ {
			root.kids = append(root.kids, vDir(fmt.Sprintf("%06d", i)))
			root.kids[i].kids = nil
		}
		if n > 65534 && !vThorough() {
			break
		}
		in := fmt.Sprintf("a directory of %d directories", n)
		fsys, err := erofs.Open(newRA(create(t, newVFS(root), in)))
		if err != nil {
			vBad(t, in, "Open: %v", err)
		}
		fi, err := fsys.Stat(".")
		if err != nil || fi.Sys().(*erofs.Inode).Nlink() != uint32(n+2) {
			vBad(t, in, "Stat: %v, %v links", err, fi)
		}
		if !vThorough() {
			break
		}
	}
}

func TestVerifC03(t *testing.T) {
	srcTrees(t, 300, vScale(150, 4000), func(r *rand.Rand, root *vNode, in string) {
		d := newDstAt()
		if err := erofs.Create(d, newVFS(root)); err != nil {
			vBad(t, in, "Create: %v", err)
		}
		vCount("images", 1)
		if s := checkLayout(d, root); s != "" {
			vBad(t, in, "%s", s)
		}
	})
}

func checkLayout(d *vDstAt, root *vNode) string {
	b := d.b
	im, err := rParse(b)
	if err != nil {
		return err.Error()
	}
	if im.bits != 12 || im.root != 0 {
		return fmt.Sprintf("block size bits %d, root nid %d", im.bits, im.root)
	}
	size := int64(im.blocks) * im.bs
	for _, w := range d.wrote {
		if w[0] < 0 || w[1] > size {
			return fmt.Sprintf("a write to [%d, %d) in an image of %d bytes", w[0], w[1], size)
		}
	}
	full := append(append([]byte(nil), b...), make([]byte, size-int64(len(b)))...)
	im.b = full
	if crc := sbCRC(full, im.bs); crc != le.Uint32(full[1028:]) {
		return fmt.Sprintf("the checksum is %#x, not %#x", le.Uint32(full[1028:]), crc)
	}
	if im.meta < 1024+128 {
		return "the metadata overlaps the superblock"
	}
	type span struct {
		a, b int64
		what string
	}
	var spans []span
	seen := map[uint64]string{}
	var bad string
	fail := func(f string, a ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	var visit func(p string, nid, up uint64, n *vNode)
	visit = func(p string, nid, up uint64, n *vNode) {
		if o, ok := seen[nid]; ok {
			fail("%q and %q share inode %d", o, p, nid)
			return
		}
		seen[nid] = p
		ino, err := im.inode(nid)
		if err != nil {
			fail("the inode of %q: %v", p, err)
			return
		}
		if ino.off < im.meta || ino.off%32 != 0 {
			fail("the inode of %q is at %d", p, ino.off)
		}
		spans = append(spans, span{ino.off, ino.off + ino.hdr, "inode of " + p})
		for _, r := range ino.dataRanges {
			spans = append(spans, span{r[0], r[1], "data of " + p})
			if r[1] > size {
				fail("the data of %q ends at %d of %d", p, r[1], size)
			}
		}
		if ino.inline {
			r := ino.dataRanges[len(ino.dataRanges)-1]
			if (r[0]-1)/im.bs != (r[1]-1)/im.bs {
				fail("the inline data of %q crosses a block", p)
			}
		}
		data, err := im.data(ino)
		if err != nil {
			fail("the data of %q: %v", p, err)
			return
		}
		if goMode(ino.mode).Type() != n.mode.Type() {
			fail("the mode of %q is %o", p, ino.mode)
			return
		}
		switch {
		case n.mode.IsDir():
			es, err := im.list(ino)
			if err != nil {
				fail("the directory %q: %v", p, err)
				return
			}
			got := 0
			for _, e := range es {
				switch e.name {
				case ".":
					if e.nid != nid || e.typ != 2 {
						fail(". of %q is %d", p, e.nid)
					}
				case "..":
					if e.nid != up || e.typ != 2 {
						fail(".. of %q is %d", p, e.nid)
					}
				default:
					k := n.kid(e.name)
					if k == nil {
						fail("%q has an entry %q", p, e.name)
						return
					}
					got++
					if goMode(uint16(0)); e.typ != map[fs.FileMode]uint8{0: 1, fs.ModeDir: 2, fs.ModeSymlink: 7}[k.mode.Type()] {
						fail("the entry %q of %q has type %d", e.name, p, e.typ)
					}
					visit(path.Join(p, e.name), e.nid, nid, k)
				}
			}
			if got != len(n.kids) {
				fail("%q lacks entries", p)
			}
		case n.mode&fs.ModeSymlink != 0:
			if string(data) != n.target {
				fail("the target of %q is %q", p, data)
			}
		default:
			if !bytes.Equal(data, n.data) {
				fail("the data of %q differs", p)
			}
		}
	}
	visit(".", im.root, im.root, root)
	if bad != "" {
		return bad
	}
	if uint64(len(seen)) != im.inodes {
		return fmt.Sprintf("%d inodes, the superblock says %d", len(seen), im.inodes)
	}
	spans = append(spans, span{1024, 1024 + 128, "superblock"})
	sort.Slice(spans, func(i, j int) bool { return spans[i].a < spans[j].a })
	for i, s := range spans {
		if s.b > size {
			return fmt.Sprintf("the %s ends at %d, the image at %d", s.what, s.b, size)
		}
		if i > 0 && spans[i-1].b > s.a {
			return fmt.Sprintf("the %s [%d, %d) overlaps the %s [%d, %d)", spans[i-1].what, spans[i-1].a, spans[i-1].b, s.what, s.a, s.b)
		}
	}
	vCount("spans", len(spans))
	return ""
}

// ---------- C04 ----------

func wOptsRandom(r *rand.Rand) wOpts {
	return wOpts{bits: uint8(9 + r.Intn(8)), meta: uint32(r.Intn(3)), sum: r.Intn(2) == 0, build: uint64(r.Int63n(1 << 34)), bnsec: uint32(r.Intn(1e9)), rootAt: r.Intn(6)}
}

func wideDir(r *rand.Rand, name string, n int) *wNode {
	d := wRandom(r, wDir(name))
	d.noDots = r.Intn(6) == 0
	kind := r.Intn(5)
	for len(d.order) < n {
		s := wNames(r)
		switch kind {
		case 0:
			s = fmt.Sprintf("%05d", r.Intn(100000))
		case 1:
			s = strings.Repeat("a", 200+r.Intn(50)) + fmt.Sprintf("%05d", r.Intn(100000))
		case 2:
			s = fmt.Sprintf("%c", 'a'+rune(r.Intn(26))) + wNames(r)
			s = s[:min(len(s), 255)]
		case 4: // many in a block
			const abc = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
			s = string([]byte{abc[r.Intn(len(abc))], abc[r.Intn(len(abc))]}[:1+min(1, r.Intn(9))])
		}
		if s == "." || s == ".." {
			continue
		}
		d.put(wRandom(r, &wNode{name: s, mode: 0o100644, data: []byte{byte(len(d.order))}}))
	}
	return d
}

func TestVerifC04(t *testing.T) {
	for i := 0; i < vScale(150, 3000); i++ {
		r := vRand(400 + int64(i))
		root := wRandom(r, wDir("."))
		n := []int{0, 1, 2, 3, 20, 100, 340, 600, 1000}[r.Intn(9)]
		d := root.put(wideDir(r, "dir", n))
		for j := r.Intn(3); j > 0; j-- {
			root.put(wideDir(r, fmt.Sprintf("d%d", j), r.Intn(30)))
		}
		if n == 0 && d.noDots {
			d.noDots = false
		}
		o := wOptsRandom(r)
		img := wBuild(r, root, o)
		in := fmt.Sprintf("seed %d, number %d: %s", vSeed(), i, quote(img))
		fsys, err := erofs.Open(newRA(img))
		if err != nil {
			vBad(t, in, "Open: %v", err)
		}
		oi, err := erofs.OpenImage(newRA(img))
		if err != nil {
			vBad(t, in, "OpenImage: %v", err)
		}
		vCount("images", 1)
		root.walk(".", func(p string, n *wNode) {
			if n.kids == nil || (n.noDots && len(n.order) == 0) {
				return
			}
			ino, err := oi.Inode(n.nid)
			if err != nil {
				vBad(t, in, "Inode(%d): %v", n.nid, err)
			}
			var got []rDirent
			if err := ino.IterDirents(func(name string, typ uint8, nid uint64) error {
				got = append(got, rDirent{name, nid, typ})
				return nil
			}); err != nil {
				vBad(t, in, "IterDirents of %q: %v (%+v)", p, err, ino)
			}
			var want []rDirent
			var list []string
			for _, e := range n.ents() {
				want = append(want, rDirent{e.name, e.n.nid, typOfFmt[e.n.mode&0o170000]})
				if e.name != "." && e.name != ".." {
					list = append(list, e.name)
				}
			}
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				vBad(t, in, "IterDirents of %q gives %q, not %q", p, got, want)
			}
			es, err := fsys.ReadDir(p)
			if err != nil || fmt.Sprintf("%q", names(es)) != fmt.Sprintf("%q", list) {
				vBad(t, in, "ReadDir(%q) = %q, %v", p, names(es), err)
			}
			for _, e := range want {
				d, err := ino.Lookup(e.name)
				if err != nil || d.Nid != e.nid || d.FileType != e.typ {
					vBad(t, in, "Lookup(%q) in %q = %v, %v, not %v", e.name, p, d, err, e)
				}
				vCount("lookups", 1)
			}
			// and names that are not there
			for j := 0; j < 40; j++ {
				s := wNames(r)
				if len(want) > 0 && r.Intn(2) == 0 {
					s = want[r.Intn(len(want))].name
					switch r.Intn(4) {
					case 0:
						s += "a"
					case 1:
						s = s[:len(s)-1]
					case 2:
						s += "\x00"
					case 3:
						s = s[:len(s)-1] + string([]byte{s[len(s)-1] + 1})
					}
				}
				in2 := false
				for _, e := range want {
					in2 = in2 || e.name == s
				}
				if in2 {
					continue
				}
				if d, err := ino.Lookup(s); err == nil || !errors.Is(err, fs.ErrNotExist) {
					vBad(t, in, "Lookup(%q) in %q = %v, %v", s, p, d, err)
				}
				vCount("misses", 1)
			}
			// path operations give the same inodes
			for j := 0; j < 10 && len(n.order) > 0; j++ {
				k := n.order[r.Intn(len(n.order))]
				fi, err := fsys.StatLink(path.Join(p, k.name))
				if err != nil || fi.Sys().(*erofs.Inode).Nid() != k.nid {
					vBad(t, in, "StatLink(%q) in %q: %v", k.name, p, err)
				}
			}
		})
	}
}

// ---------- C05 ----------

// probe runs every operation on an image, with bounded work of its own.
func probe(ra io.ReaderAt, lookups []string) (opened bool) {
	fsys, err := erofs.Open(ra)
	img, err2 := erofs.OpenImage(ra)
	if err != nil || err2 != nil {
		return false
	}
	budget := 300
	var visit func(p string, depth int)
	visit = func(p string, depth int) {
		if budget--; budget < 0 {
			return
		}
		_, _ = fsys.Stat(p)
		_, _ = fsys.StatLink(p)
		_, _ = fsys.ReadLink(p)
		if f, err := fsys.Open(p); err == nil {
			_, _ = f.Stat()
			b := make([]byte, 5000)
			for i := 0; i < 8; i++ {
				n, err := f.Read(b)
				if n < 0 || n > len(b) {
					panic(fmt.Sprintf("read of %d bytes", n))
				}
				if err != nil {
					break
				}
			}
			_ = f.Close()
		}
		es, err := fsys.ReadDir(p)
		if err != nil {
			return
		}
		for i, e := range es {
			if i > 12 {
				break
			}
			_, _, _ = e.Name(), e.IsDir(), e.Type()
			if fi, err := e.Info(); err == nil {
				_, _, _, _, _ = fi.Size(), fi.Mode(), fi.ModTime(), fi.IsDir(), fi.Sys()
			}
			if depth > 0 {
				visit(path.Join(p, e.Name()), depth-1)
			}
		}
		for _, l := range lookups {
			_, _ = fsys.Stat(path.Join(p, l))
		}
	}
	visit(".", 3)
	for _, nid := range []uint64{0, 1, 2, 100, 1 << 31, 1<<58 - 1, 1 << 58, 1 << 59, 1<<63 - 1, math.MaxUint64} {
		if ino, err := img.Inode(nid); err == nil {
			_, _ = ino.Lookup("x")
			_, _ = ino.Readlink()
			_, _ = ino.Data()
			c := 0
			_ = ino.IterDirents(func(string, uint8, uint64) error {
				if c++; c > 5000 {
					return errInjected
				}
				return nil
			})
		}
	}
	return true
}

func fixSum(b []byte) {
	if len(b) > 1152 && b[1024+12] >= 9 && b[1024+12] <= 16 {
		bs := int64(1) << b[1024+12]
		if int64(len(b)) >= bs+1024 {
			le.PutUint32(b[1028:], sbCRC(b, bs))
		}
	}
}

func TestVerifC05(t *testing.T) {
	var seeds [][]byte
	for i := 0; i < 6; i++ {
		r := vRand(500 + int64(i))
		root := wTree(r, 2, 6, func() int { return r.Intn(3000) })
		o := wOptsRandom(r)
		o.bits = uint8(9 + i%5)
		seeds = append(seeds, wBuild(r, root, o))
	}
	for i := 0; i < 4; i++ {
		r := vRand(540 + int64(i))
		root := vTree(r, 2, 6, srcNames(r), func() int { return r.Intn(6000) }, true)
		d := newDstAt()
		if err := erofs.Create(d, newVFS(root)); err == nil {
			seeds = append(seeds, d.b)
		}
	}
	ext16 := []uint64{0, 1, 4, 5, 11, 12, 13, 24, 0x7fff, 0x8000, 0xfff4, 0xffff}
	ext64 := []uint64{0, 1, 255, 4096, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<58 - 1, 1 << 58, 1 << 59, 1<<63 - 4096, 1<<63 - 1, 1 << 63, math.MaxUint64}
	for i := 0; i < vScale(4000, 200000); i++ {
		r := vRand(600 + int64(i))
		b := append([]byte(nil), seeds[r.Intn(len(seeds))]...)
		im, err := rParse(b)
		if err != nil {
			t.Fatal(err)
		}
		// interesting places: the superblock, inodes, directory blocks
		for k := 1 + r.Intn(4); k > 0; k-- {
			var off int64
			switch r.Intn(4) {
			case 0:
				off = 1024 + int64(r.Intn(64))
			case 1, 2:
				off = im.meta + int64(r.Intn(60))*32 + int64([]int{0, 2, 4, 6, 8, 8, 12, 16, 32, 40, 64, 72, 84}[r.Intn(13)])
			default:
				off = r.Int63n(int64(len(b)))
			}
			if off < 0 || off+8 > int64(len(b)) {
				continue
			}
			switch r.Intn(6) {
			case 0:
				b[off] = byte(r.Intn(256))
			case 1:
				le.PutUint16(b[off:], uint16(ext16[r.Intn(len(ext16))]))
			case 2:
				le.PutUint32(b[off:], uint32(ext64[r.Intn(len(ext64))]))
			case 3:
				le.PutUint64(b[off:], ext64[r.Intn(len(ext64))])
			case 4:
				b[off] ^= 1 << r.Intn(8)
			case 5:
				n := r.Int63n(int64(len(b)) - off)
				n = min(n, 64)
				copy(b[off:off+n], b[r.Int63n(int64(len(b))):])
			}
		}
		if r.Intn(10) == 0 {
			b = b[:r.Intn(len(b))]
		}
		if r.Intn(10) != 0 {
			fixSum(b)
		}
		ra := newRA(b)
		if r.Intn(8) == 0 {
			ra.fail = r.Int63n(200)
			ra.part = r.Intn(2) == 0
		}
		ra.eof = r.Intn(2) == 0
		vWithin(t, 30*time.Second, func() string { return fmt.Sprintf("seed %d, number %d: %s", vSeed(), i, quote(b)) }, func() {
			if probe(ra, []string{"a", "x", "zzz", ".", "..", "\x01", "f3"}) {
				vCount("opened", 1)
			}
		})
		if ra.max > 64<<10 {
			vBad(t, quote(b), "a buffer of %d bytes was requested", ra.max)
		}
		vCount("images", 1)
	}
	// an endless reader: whatever is asked for is there
	for i := 0; i < vScale(30, 500); i++ {
		r := vRand(5500 + int64(i))
		b := append([]byte(nil), seeds[r.Intn(len(seeds))]...)
		im, _ := rParse(b)
		ino, err := im.inode(im.root)
		if err != nil {
			continue
		}
		if ino.ext {
			le.PutUint64(b[ino.off+8:], ext64[r.Intn(len(ext64))])
		} else {
			le.PutUint32(b[ino.off+8:], uint32(ext64[r.Intn(len(ext64))]))
		}
		vWithin(t, 30*time.Second, func() string { return quote(b) }, func() { probe(endless{newRA(b)}, []string{"a"}) })
	}
}

// endless serves zeros behind the end.
type endless struct{ *vRA }

func (e endless) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	clear(p)
	if off < int64(len(e.b)) {
		copy(p, e.b[off:])
	}
	return len(p), nil
}

// ---------- C06 ----------

func TestVerifC06(t *testing.T) {
	open := func(b []byte) error {
		var err error
		vWithin(t, 20*time.Second, func() string { return quote(b) }, func() {
			_, err = erofs.Open(newRA(b))
			if _, e2 := erofs.OpenImage(newRA(b)); (e2 == nil) != (err == nil) {
				panic(fmt.Sprintf("Open: %v, OpenImage: %v", err, e2))
			}
		})
		vCount("opens", 1)
		return err
	}
	for bits := 0; bits < 256; bits++ {
		r := vRand(1000 + int64(bits))
		ok := bits >= 9 && bits <= 16
		o := wOptsRandom(r)
		if ok {
			o.bits = uint8(bits)
		}
		root := wTree(r, 1, 3, func() int { return r.Intn(100) })
		for _, sum := range []bool{false, true} {
			o.sum = sum
			b := wBuild(r, root, o)
			b[1024+12] = byte(bits)
			if err := open(b); (err == nil) != ok {
				vBad(t, fmt.Sprintf("an image with %d block size bits, checksum %v", bits, sum), "Open: %v", err)
			}
			if !ok {
				continue
			}
			bs := int64(1) << bits
			end := max(bs, 1024+min(bs, 1024))
			// stale checksums
			for off := int64(1024); off < end; off++ {
				if off >= 1024+128 && end-off > 300 && r.Intn(20) != 0 {
					continue
				}
				c := append([]byte(nil), b...)
				c[off] ^= 1 << r.Intn(8)
				err := open(c)
				if sum && err == nil && c[1024+8]&1 != 0 {
					vBad(t, quote(c), "Open succeeds, with byte %d of the superblock changed", off)
				}
				if !sum && off >= 1024+128 && err != nil {
					vBad(t, quote(c), "Open: %v, with byte %d changed", err, off)
				}
			}
			// any other checksum
			c := append([]byte(nil), b...)
			le.PutUint32(c[1028:], r.Uint32())
			if sum == (open(c) == nil) && le.Uint32(c[1028:]) != le.Uint32(b[1028:]) {
				vBad(t, quote(c), "checksum feature %v, stored checksum changed: %v", sum, open(c))
			}
			// fields
			for k := 0; k < 40; k++ {
				c := append([]byte(nil), b...)
				want := true
				s := c[1024:]
				switch r.Intn(6) {
				case 0:
					s[r.Intn(4)] ^= 1 << r.Intn(8)
					want = false
				case 1:
					le.PutUint32(s[80:], 1<<r.Intn(32))
					want = false
				case 2:
					le.PutUint32(s[8:], le.Uint32(s[8:])|r.Uint32()&^1)
				case 3:
					copy(s[48:80], vBytes(r, 32))
				case 4:
					copy(s[84:128], vBytes(r, 44))
				case 5:
					copy(s[16:44], vBytes(r, 28))
				}
				if sum {
					le.PutUint32(s[4:], sbCRC(c, bs))
				}
				if err := open(c); (err == nil) != want {
					vBad(t, quote(c), "Open: %v", err)
				}
			}
			// cut short
			for _, n := range []int64{0, 1, 1023, 1024, 1025, 1151, 1152, 1153, end - 1, end} {
				if n > int64(len(b)) {
					continue
				}
				err := open(b[:n])
				if need := map[bool]int64{false: 1152, true: end}[sum]; (err == nil) != (n >= need) {
					vBad(t, fmt.Sprintf("an image of %d bytes, block size bits %d, checksum %v", n, bits, sum), "Open: %v", err)
				}
			}
		}
	}
}

// ---------- C07 ----------

func TestVerifC07(t *testing.T) {
	for i := 0; i < vScale(150, 4000); i++ {
		r := vRand(700 + int64(i))
		o := wOptsRandom(r)
		bs := 1 << o.bits
		root := wTree(r, 2, 12, func() int {
			switch r.Intn(3) {
			case 0:
				return r.Intn(200)
			case 1:
				return max(0, bs*r.Intn(3)+r.Intn(5)-2)
			default:
				return r.Intn(2*bs + 100)
			}
		})
		img := wBuild(r, root, o)
		in := fmt.Sprintf("seed %d, number %d: %s", vSeed(), i, quote(img))
		ra := newRA(img)
		ra.eof = r.Intn(2) == 0
		fsys, err := erofs.Open(ra)
		if err != nil {
			vBad(t, in, "Open: %v", err)
		}
		oi, err := erofs.OpenImage(ra)
		if err != nil {
			vBad(t, in, "OpenImage: %v", err)
		}
		sb := oi.SuperBlock()
		if oi.BlockSize() != uint32(bs) || oi.RootNid() != root.nid || sb.BuildTime != o.build {
			vBad(t, in, "superblock %+v", sb)
		}
		vCount("images", 1)
		root.walk(".", func(p string, n *wNode) {
			if n.kids != nil && n.noDots && len(n.order) == 0 {
				return
			}
			ino, err := oi.Inode(n.nid)
			if err != nil {
				vBad(t, in, "Inode of %q: %v", p, err)
			}
			mt, ns := n.mtime, n.nsec
			if !n.ext {
				mt, ns = o.build, o.bnsec
			}
			if ino.Nid() != n.nid || ino.Mode() != goMode(n.mode) || ino.UID() != n.uid || ino.GID() != n.gid || ino.Nlink() != n.nlink || ino.Mtime() != mt || ino.MtimeNsec() != ns {
				vBad(t, in, "the inode of %q is %+v, not %+v", p, ino, n)
			}
			if n.kids == nil && ino.Size() != uint64(len(n.data)) {
				vBad(t, in, "the size of %q is %d", p, ino.Size())
			}
			k := n.mode & 0o170000
			if ino.IsDir() != (k == 0o040000) || ino.IsRegular() != (k == 0o100000) || ino.IsSymlink() != (k == 0o120000) ||
				ino.IsCharDev() != (k == 0o020000) || ino.IsBlockDev() != (k == 0o060000) || ino.IsFIFO() != (k == 0o010000) || ino.IsSocket() != (k == 0o140000) {
				vBad(t, in, "the type of %q", p)
			}
			fi, err := fsys.StatLink(p)
			if err != nil {
				vBad(t, in, "StatLink(%q): %v", p, err)
			}
			name := n.name
			if fi.Name() != name || fi.Mode() != goMode(n.mode) || !fi.ModTime().Equal(time.Unix(int64(mt), int64(ns))) || fi.Size() != int64(ino.Size()) || fi.IsDir() != (k == 0o040000) {
				vBad(t, in, "StatLink(%q) = %v %v %v", p, fi.Name(), fi.Mode(), fi.ModTime())
			}
			vCount("inodes", 1)
			switch k {
			case 0o100000:
				f, err := fsys.Open(p)
				if err != nil {
					vBad(t, in, "Open(%q): %v", p, err)
				}
				b, err := vReadAll(f, []int{1, 13, 4096, 100000}[r.Intn(4)])
				if err != nil || !bytes.Equal(b, n.data) {
					vBad(t, in, "the contents of %q: %d of %d bytes, %v", p, len(b), len(n.data), err)
				}
				if fi, err := f.Stat(); err != nil || fi.Size() != int64(len(n.data)) {
					vBad(t, in, "Stat of the open %q: %v", p, err)
				}
				rd, err := ino.Data()
				if err != nil {
					vBad(t, in, "Data of %q: %v", p, err)
				}
				if b, err := vReadAll(rd, 5000); err != nil || !bytes.Equal(b, n.data) {
					vBad(t, in, "Data of %q: %d of %d bytes, %v", p, len(b), len(n.data), err)
				}
				if _, err := ino.Readlink(); err == nil {
					vBad(t, in, "Readlink of the file %q", p)
				}
			case 0o120000:
				want := string(n.data)
				if !n.inline && len(want) > bs-1 {
					want = want[:bs-1]
				}
				if s, err := fsys.ReadLink(p); err != nil || s != want {
					vBad(t, in, "ReadLink(%q) = %q, %v, not %q", p, s, err, want)
				}
			}
		})
	}
}

// ---------- C08 ----------

func wResolve(root *wNode, p string, nofollow bool) (*wNode, error) {
	links := 0
	d := root
	split := func(s string) (r []string) {
		for _, c := range strings.Split(s, "/") {
			if c != "" {
				r = append(r, c)
			}
		}
		return
	}
	todo := split(p)
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if d.kids == nil {
			return nil, fs.ErrInvalid
		}
		switch c {
		case ".":
			continue
		case "..":
			if d.parent != nil {
				d = d.parent
			}
			continue
		}
		k := d.kids[c]
		if k == nil {
			return nil, fs.ErrNotExist
		}
		if k.mode&0o170000 == 0o120000 && !(nofollow && len(todo) == 0) {
			if links++; links > 40 {
				return nil, errInjected
			}
			if strings.HasPrefix(string(k.data), "/") {
				d = root
			}
			todo = append(split(string(k.data)), todo...)
			continue
		}
		d = k
	}
	return d, nil
}

func TestVerifC08(t *testing.T) {
	for i := 0; i < vScale(250, 8000); i++ {
		r := vRand(800 + int64(i))
		root := wDir(".")
		root.ext = true
		dirs := []*wNode{root}
		var paths []string
		nm := func() string { return string(rune('a' + r.Intn(4))) }
		var p2 func() string
		p2 = func() string {
			var c []string
			for k := 1 + r.Intn(4); k > 0; k-- {
				c = append(c, []string{nm(), nm(), nm(), nm(), "..", ".", ""}[r.Intn(7)])
			}
			s := strings.Join(c, "/")
			if r.Intn(3) == 0 {
				s = "/" + s
			}
			if s == "" {
				s = "."
			}
			return s
		}
		for k := 3 + r.Intn(14); k > 0; k-- {
			d := dirs[r.Intn(len(dirs))]
			n := nm()
			if d.kids[n] != nil {
				continue
			}
			switch r.Intn(4) {
			case 0:
				dirs = append(dirs, d.put(wDir(n)))
			case 1:
				d.put(&wNode{name: n, mode: 0o100644, data: vBytes(r, r.Intn(40)), inline: r.Intn(2) == 0})
			default:
				d.put(&wNode{name: n, mode: 0o120777, data: []byte(p2()), inline: r.Intn(2) == 0, ext: r.Intn(2) == 0})
			}
		}
		if i%10 == 0 {
			// chains of links around the limit
			n := 38 + r.Intn(5)
			for k := 0; k < n; k++ {
				root.put(&wNode{name: fmt.Sprintf("l%02d", k), mode: 0o120777, data: []byte(fmt.Sprintf("l%02d", k+1)), inline: true})
				paths = append(paths, fmt.Sprintf("l%02d", k))
			}
			root.put(&wNode{name: fmt.Sprintf("l%02d", n), mode: 0o100644, data: []byte("end"), inline: true})
		}
		img := wBuild(r, root, wOptsRandom(r))
		in := fmt.Sprintf("seed %d, number %d: %s", vSeed(), i, quote(img))
		fsys, err := erofs.Open(newRA(img))
		if err != nil {
			vBad(t, in, "Open: %v", err)
		}
		vCount("images", 1)
		root.walk("", func(p string, n *wNode) { paths = append(paths, p) })
		for k := 0; k < 60; k++ {
			s := p2()
			if r.Intn(2) == 0 {
				s = paths[r.Intn(len(paths))] + "/" + s
			}
			paths = append(paths, s)
		}
		for _, p := range paths {
			var fi, li fs.FileInfo
			var ferr, lerr, rerr error
			var tg string
			vWithin(t, 20*time.Second, func() string { return in }, func() {
				fi, ferr = fsys.Stat(p)
				li, lerr = fsys.StatLink(p)
				tg, rerr = fsys.ReadLink(p)
			})
			n, err := wResolve(root, p, false)
			vCount("paths", 1)
			if (err == nil) != (ferr == nil) || (err == nil && fi.Sys().(*erofs.Inode).Nid() != n.nid) || (errors.Is(err, fs.ErrNotExist) != errors.Is(ferr, fs.ErrNotExist)) {
				vBad(t, in, "Stat(%q): %v, should be %v (%v)", p, ferr, err, n)
			}
			f, oerr := fsys.Open(p)
			if (err == nil) != (oerr == nil) {
				vBad(t, in, "Open(%q): %v, should be %v", p, oerr, err)
			}
			if err == nil {
				vCount("resolved", 1)
				if n.mode&0o170000 == 0o100000 {
					if b, err := vReadAll(f, 100); err != nil || !bytes.Equal(b, n.data) {
						vBad(t, in, "Open(%q) reads %q, %v", p, b, err)
					}
				}
			}
			es, derr := fsys.ReadDir(p)
			if isDir := err == nil && n.kids != nil; (derr == nil) != isDir || (isDir && len(es) != len(n.order)) {
				vBad(t, in, "ReadDir(%q): %d, %v", p, len(es), derr)
			}
			l, err := wResolve(root, p, true)
			if (err == nil) != (lerr == nil) || (err == nil && li.Sys().(*erofs.Inode).Nid() != l.nid) {
				vBad(t, in, "StatLink(%q): %v, should be %v (%v)", p, lerr, err, l)
			}
			isLink := err == nil && l.mode&0o170000 == 0o120000
			if isLink != (rerr == nil) || (isLink && tg != string(l.data)) {
				vBad(t, in, "ReadLink(%q) = %q, %v", p, tg, rerr)
			}
		}
	}
}

// ---------- C16 ----------

func TestVerifC16(t *testing.T) {
	for i := 0; i < vScale(40, 1500); i++ {
		r := vRand(1600 + int64(i))
		root := vTree(r, 2, 4, srcNames(r), srcSizes(r), true)
		srcMeta(r, root)
		in := fmt.Sprintf("the source (seed %d, number %d) %s", vSeed(), i, root.describe())
		src := newVFS(root)
		good := newDstAt()
		if err := erofs.Create(good, src); err != nil {
			vBad(t, in, "Create: %v", err)
		}
		ops := int(*src.ops)
		for k := 0; k < ops; k++ {
			if ops > 60 && r.Intn(ops) > 60 {
				continue
			}
			s := newVFS(root)
			c, hit := 0, ""
			s.fault = func(op, p string) error {
				if c++; c == k+1 {
					hit = op + " " + p
					return vFault(k + i)
				}
				return nil
			}
			var err error
			vWithin(t, 20*time.Second, func() string { return in }, func() { err = erofs.Create(newDstAt(), s) })
			vCount("source faults", 1)
			if hit != "" && err == nil {
				vBad(t, in, "Create succeeds although %q fails", hit)
			}
		}
		for k := 0; k < good.n; k++ {
			if good.n > 60 && r.Intn(good.n) > 60 {
				continue
			}
			d := newDstAt()
			d.fail = k
			d.part = r.Intn(2) == 0
			d.err = vFault(k + i)
			err := erofs.Create(d, newVFS(root))
			vCount("destination faults", 1)
			if d.failed && err == nil {
				vBad(t, in, "Create succeeds although write %d fails", k)
			}
		}
		// only one write fails
		for k := 0; k < min(good.n, 60); k++ {
			d := &oneFault{vDstAt: newDstAt(), k: k}
			if err := erofs.Create(d, newVFS(root)); d.hit && err == nil {
				vBad(t, in, "Create succeeds although write %d fails", k)
			}
		}
		// wrong sizes
		var files []*vNode
		root.walk(".", func(_ string, n *vNode) {
			if n.mode.IsRegular() {
				files = append(files, n)
			}
		})
		for k := 0; k < min(len(files), 10); k++ {
			n := files[r.Intn(len(files))]
			n.size = int64([]int{len(n.data) - 1, len(n.data) + 1, 0, len(n.data) + 4096, 1024, 1025}[r.Intn(6)])
			if n.size >= 0 && n.size != int64(len(n.data)) {
				vCount("wrong sizes", 1)
				var err error
				vWithin(t, 20*time.Second, func() string { return in }, func() { err = erofs.Create(newDstAt(), newVFS(root)) })
				if err == nil {
					vBad(t, in, "Create succeeds although %q has %d bytes and says %d", n.name, len(n.data), n.size)
				}
			}
			n.size = -1
		}
	}
}

type oneFault struct {
	*vDstAt
	k, n int
	hit  bool
}

func (o *oneFault) WriteAt(p []byte, off int64) (int, error) {
	o.n++
	if o.n == o.k+1 {
		o.hit = true
		return 0, errInjected
	}
	return o.vDstAt.WriteAt(p, off)
}

// ---------- C17 ----------

func TestVerifC17(t *testing.T) {
	for i := 0; i < vScale(60, 1500); i++ {
		r := vRand(1700 + int64(i))
		var img []byte
		files := map[string][]byte{}
		if i%2 == 0 {
			root := wTree(r, 1, 8, func() int { return r.Intn(9000) })
			o := wOptsRandom(r)
			o.bits = uint8(9 + r.Intn(4))
			img = wBuild(r, root, o)
			root.walk("", func(p string, n *wNode) {
				if n.mode&0o170000 == 0o100000 {
					files[p] = n.data
				}
			})
		} else {
			root := vTree(r, 1, 8, srcNames(r), srcSizes(r), true)
			img = create(t, newVFS(root), root.describe())
			root.walk("", func(p string, n *vNode) {
				if n.mode.IsRegular() {
					files[p] = n.data
				}
			})
		}
		try := func(ra *vRA, what string, must bool) {
			in := fmt.Sprintf("seed %d, number %d, %s: %s", vSeed(), i, what, quote(ra.b))
			fsys, err := erofs.Open(ra)
			if err != nil {
				return
			}
			for p, want := range files {
				f, err := fsys.Open(p)
				if err != nil {
					continue
				}
				var b []byte
				vWithin(t, 20*time.Second, func() string { return in }, func() { b, err = vReadAll(f, []int{100, 4096, 20000}[r.Intn(3)]) })
				vCount("reads", 1)
				if err == nil && !bytes.Equal(b, want) {
					vBad(t, in, "reading %q gives %d of %d bytes and no error", p, len(b), len(want))
				}
				if err != nil {
					vCount("reported", 1)
				}
				if must && err != nil {
					vBad(t, in, "reading %q: %v", p, err)
				}
			}
		}
		try(newRA(img), "whole", true)
		for k := 0; k < 30; k++ {
			try(newRA(img[:r.Intn(len(img)+1)]), "cut short", false)
		}
		for k := 0; k < 15; k++ {
			ra := newRA(img)
			ra.at = 1 + r.Int63n(int64(len(img)))
			ra.part = r.Intn(2) == 0
			try(ra, fmt.Sprintf("reads of byte %d fail", ra.at), false)
		}
		for k := 0; k < 10; k++ {
			ra := newRA(img)
			ra.fail = r.Int63n(100)
			ra.part = r.Intn(2) == 0
			try(ra, fmt.Sprintf("reads fail from the %dth", ra.fail), false)
		}
	}
}

// ---------- C23 ----------

func TestVerifC23(t *testing.T) {
	for i := 0; i < vScale(12, 200); i++ {
		r := vRand(2300 + int64(i))
		root := wTree(r, 2, 8, func() int { return r.Intn(3000) })
		root.put(&wNode{name: "loop", mode: 0o120777, data: []byte("loop")})
		o := wOptsRandom(r)
		o.bits = uint8(9 + r.Intn(4))
		img := wBuild(r, root, o)
		fsys, err := erofs.Open(newRA(img))
		if err != nil {
			t.Fatal(err)
		}
		in := fmt.Sprintf("seed %d, number %d: %s", vSeed(), i, quote(img))
		var paths []string
		root.walk("", func(p string, n *wNode) { paths = append(paths, p, p+"/..", p+"/x") })
		ask := func(fsys *erofs.Filesystem, p string, es []fs.DirEntry) string {
			var sb strings.Builder
			info := func(fi fs.FileInfo, err error) {
				if err != nil {
					fmt.Fprintf(&sb, "%v;", err)
					return
				}
				fmt.Fprintf(&sb, "%s %d %v %v %v %d;", fi.Name(), fi.Size(), fi.Mode(), fi.ModTime().UnixNano(), fi.IsDir(), fi.Sys().(*erofs.Inode).Nid())
			}
			info(fsys.Stat(p))
			info(fsys.StatLink(p))
			s, err := fsys.ReadLink(p)
			fmt.Fprintf(&sb, "%q %v;", s, err)
			if es, err := fsys.ReadDir(p); err != nil {
				fmt.Fprintf(&sb, "%v;", err)
			} else {
				for _, e := range es {
					fmt.Fprintf(&sb, "%s %v %v;", e.Name(), e.IsDir(), e.Type())
					info(e.Info())
				}
			}
			if f, err := fsys.Open(p); err != nil {
				fmt.Fprintf(&sb, "%v;", err)
			} else {
				g, _ := fsys.Open(p)
				one := make([]byte, 3)
				n, _ := f.Read(one)
				b, err := vReadAll(g, 1000)
				c, err2 := vReadAll(f, 1000)
				fmt.Fprintf(&sb, "%x %v %x %v;", b, err, append(one[:n], c...), err2)
				info(f.Stat())
			}
			for _, e := range es {
				fmt.Fprintf(&sb, "%v ", e.Type())
				info(e.Info())
			}
			return sb.String()
		}
		shared, _ := fsys.ReadDir(".")
		want := map[string]string{}
		for _, p := range paths {
			// a fresh view for the expected answers
			f2, _ := erofs.Open(newRA(img))
			es, _ := f2.ReadDir(".")
			want[p] = ask(f2, p, es)
		}
		var wg sync.WaitGroup
		bad := make(chan string, 100)
		for g := 0; g < 6; g++ {
			wg.Add(1)
			seed := r.Int63()
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for k := 0; k < 40; k++ {
					p := paths[r.Intn(len(paths))]
					if s := ask(fsys, p, shared); s != want[p] {
						select {
						case bad <- fmt.Sprintf("%q: %s, not %s", p, s, want[p]):
						default:
						}
					}
					vCount("operations", 1)
				}
			}()
		}
		wg.Wait()
		select {
		case s := <-bad:
			vBad(t, in, "%s", s)
		default:
		}
	}
}
