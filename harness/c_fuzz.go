package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C21"] = checkDef{fn: checkC21, level: "exploration", min: 2500,
		rule: "images of generated file systems damaged by bit flips, extreme field values, overwritten, swapped, shifted and forged blocks and truncation; identify, recon, dump-index, ls, recover and mount run on each under CPU and memory limits; an evaluation is one command on one damaged image or one object with undamaged metadata and data, which must still be listed, recovered and served; distinct ones differ in damage or object"}
}

// damage collects what happened to an image.
type damage struct {
	fs    *FS
	r     *rand.Rand
	img   []byte // only for blocks touched
	spans []span
	f     *os.File
	size  uint64
	kinds []string
	hit   map[[3]uint64]bool // (owner, type, object) of items in damaged blocks
	chunk bool               // a chunk item is among them
}

func (d *damage) read(off, n uint64) []byte {
	b := make([]byte, n)
	d.f.ReadAt(b, int64(off))
	return b
}

func (d *damage) write(off uint64, b []byte) {
	if off >= d.size {
		return
	}
	if uint64(len(b)) > d.size-off {
		b = b[:d.size-off]
	}
	d.parse(off, uint64(len(b)))
	_, err := d.f.WriteAt(b, int64(off))
	must(err)
	d.spans = append(d.spans, span{off, uint64(len(b))})
	d.parse(off, uint64(len(b)))
}

// parse notes every item that the blocks of a range may be taken to hold.
func (d *damage) parse(off, n uint64) {
	bs := d.fs.BS
	for o := off / bs * bs; o < off+n; o += bs {
		b := d.read(o, bs)
		u64 := func(p int) uint64 {
			v := uint64(0)
			for i := 7; i >= 0; i-- {
				v = v<<8 | uint64(b[p+i])
			}
			return v
		}
		owner := u64(88)
		cnt := int(u64(96) & 0xffffffff)
		for i := 0; i < cnt && leafHdr+(i+1)*itemHdr <= len(b); i++ {
			p := leafHdr + i*itemHdr
			d.hit[[3]uint64{owner, uint64(b[p+8]), u64(p)}] = true
			if owner == oChunk && b[p+8] == tChunkItem {
				d.chunk = true
			}
		}
	}
}

func (d *damage) extreme() uint64 {
	r := d.r
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1 << uint(r.Intn(64))
	case 3:
		return 1<<uint(r.Intn(64)) - 1
	case 4:
		return ^uint64(0) - uint64(r.Intn(70000))
	case 5:
		return uint64(r.Intn(300))
	case 6:
		return 1<<63 - uint64(r.Intn(3))
	}
	return r.Uint64()
}

// forged returns records that make trouble, for a leaf of the given owner.
func (d *damage) forged(owner uint64, v *View) (out []Rec) {
	r := d.r
	var objs []uint64
	for k := range v.item[owner] {
		objs = append(objs, k.Obj)
		if len(objs) > 40 {
			break
		}
	}
	objs = append(objs, 256, 257)
	sortU64(objs)
	obj := func() uint64 {
		if r.Intn(5) == 0 {
			return 70000 + uint64(r.Intn(5))
		}
		return objs[r.Intn(len(objs))]
	}
	add := func(k Key, b []byte) { out = append(out, Rec{Owner: owner, Key: k, Gen: d.fs.Gen, Data: b}) }
	for n := 1 + r.Intn(6); n > 0; n-- {
		switch r.Intn(9) {
		case 0, 1: // entries: cycles, other subvolumes, odd types and names
			var es []EntryV
			for m := 1 + r.Intn(3); m > 0; m-- {
				e := EntryV{Name: []string{"loop", "x", "..", ".", "", "a/b", "../../up", "subvol_256", "\x00", "back\\slash", strings.Repeat("L", 255), strings.Repeat("M", 400)}[r.Intn(12)],
					Type: uint8(r.Intn(10)), Loc: Key{obj(), tInodeItem, 0}}
				if r.Intn(2) == 0 {
					e.Type = ftDir
				}
				if r.Intn(4) == 0 {
					e.Loc = Key{[]uint64{5, 256, 257, 300, ^uint64(0)}[r.Intn(5)], tRootItem, ^uint64(0)}
				}
				es = append(es, e)
			}
			b := encEntries(es, d.fs.Gen)
			if r.Intn(3) == 0 {
				le16(b[27:], uint16(d.extreme()))
			}
			if r.Intn(4) == 0 {
				le16(b[25:], uint16(d.extreme()))
			}
			if r.Intn(5) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
			add(Key{obj(), tDirItem, uint64(r.Uint32())}, b)
		case 2: // inode
			b := encInode(InodeV{Size: d.extreme(), Mode: uint32(d.extreme()), Nlink: uint32(d.extreme()), Mtime: TS{int64(d.extreme()), uint32(d.extreme())}, Ctime: TS{int64(d.extreme()), uint32(d.extreme())}})
			if r.Intn(3) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
			add(Key{obj(), tInodeItem, uint64(r.Intn(2)) * d.extreme()}, b)
		case 3, 4: // extents
			e := ExtentV{Type: uint8(r.Intn(4)), Compr: uint8(r.Intn(5) / 2), RAM: d.extreme(), Disk: d.extreme(), DiskNum: d.extreme(), Off: d.extreme(), Num: d.extreme()}
			if r.Intn(2) == 0 {
				for l := range d.fs.chunks {
					e.Disk, e.Off = l, 0
					if r.Intn(2) == 0 {
						break
					}
				}
			}
			if e.Type == exInline {
				e.Inline = make([]byte, r.Intn(50))
			}
			b := encExtent(e, d.fs.Gen)
			if r.Intn(3) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
			at := d.extreme()
			if r.Intn(2) == 0 {
				at = uint64(r.Intn(5)) * 4096
			}
			add(Key{obj(), tExtentData, at}, b)
		case 5: // attributes
			b := encEntries([]EntryV{{Name: "user.x", Type: ftXattr, Payload: []byte("v")}}, d.fs.Gen)
			le16(b[25+2*r.Intn(2):], uint16(d.extreme()))
			add(Key{obj(), tXattr, uint64(r.Uint32())}, b)
		case 6: // chunks
			ch := encChunk(ChunkV{Len: d.extreme(), Type: 1, Stripes: []StripeV{{d.extreme(), d.extreme()}}})
			if r.Intn(2) == 0 {
				le16(ch[44:], uint16(d.extreme()))
			}
			if r.Intn(3) == 0 {
				ch = ch[:r.Intn(len(ch)+1)]
			}
			add(Key{256, tChunkItem, d.extreme()}, ch)
		case 7: // roots
			b := make([]byte, []int{0, 160, 439, 500}[r.Intn(4)])
			r.Read(b)
			add(Key{[]uint64{256, 5, 400, ^uint64(0), ^uint64(255), 70000}[r.Intn(6)], tRootItem, d.extreme()}, b)
		case 8: // anything
			b := make([]byte, r.Intn(100))
			r.Read(b)
			add(Key{d.extreme(), uint8(r.Intn(256)), d.extreme()}, b)
		}
	}
	return
}

func sortU64(x []uint64) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

// one makes one piece of damage.
func (d *damage) one(v *View) {
	r, fs := d.r, d.fs
	leaf := func() Leaf {
		l := fs.Log[r.Intn(len(fs.Log))]
		if l.Owner == oChunk && r.Intn(6) > 0 {
			l = fs.Log[r.Intn(len(fs.Log))]
		}
		return l
	}
	fixup := func(b []byte) {
		if r.Intn(2) == 0 {
			le32(b, crcOf(b[32:]))
		}
	}
	kind := r.Intn(16)
	d.kinds = append(d.kinds, fmt.Sprint(kind))
	switch kind {
	case 0, 1: // bit flips
		l := leaf()
		b := d.read(l.Phys, fs.BS)
		for n := 1 + r.Intn(8); n > 0; n-- {
			p := r.Intn(len(b))
			switch r.Intn(3) {
			case 0:
				p = r.Intn(leafHdr)
			case 1:
				p = r.Intn(min(leafHdr+itemHdr*len(l.Items), len(b)))
			}
			b[p] ^= 1 << uint(r.Intn(8))
		}
		fixup(b)
		d.write(l.Phys, b)
	case 2, 3: // header fields
		l := leaf()
		b := d.read(l.Phys, fs.BS)
		switch r.Intn(5) {
		case 0, 1:
			le32(b[96:], uint32(d.extreme()))
		case 2:
			le64(b[88:], []uint64{d.extreme(), 1, 3, 5, 256}[r.Intn(5)])
		case 3:
			le64(b[80:], d.extreme())
		case 4:
			b[100] = byte(r.Intn(256))
		}
		fixup(b)
		d.write(l.Phys, b)
	case 4, 5, 6: // item fields
		l := leaf()
		b := d.read(l.Phys, fs.BS)
		for n := 1 + r.Intn(3); n > 0; n-- {
			p := leafHdr + itemHdr*r.Intn(len(l.Items))
			switch r.Intn(5) {
			case 0:
				le64(b[p:], d.extreme())
			case 1:
				b[p+8] = []byte{1, 12, 24, 48, 84, 96, 108, 128, 132, 144, 156, 168, 169, 192, 204, 216, 228, 255, 0}[r.Intn(19)]
			case 2:
				le64(b[p+9:], d.extreme())
			case 3:
				le32(b[p+17:], uint32(d.extreme()))
			case 4:
				le32(b[p+21:], uint32(d.extreme()))
			}
		}
		fixup(b)
		d.write(l.Phys, b)
	case 7, 8, 9: // bytes of the items
		l := leaf()
		b := d.read(l.Phys, fs.BS)
		end := len(b)
		start := end
		for _, it := range l.Items {
			start -= len(it.Data)
		}
		if start >= end {
			return
		}
		for n := 1 + r.Intn(4); n > 0; n-- {
			w := 1 << uint(r.Intn(4))
			p := start + r.Intn(end-start)
			if it := r.Intn(len(l.Items)); r.Intn(2) == 0 && len(l.Items[it].Data) > 0 {
				// a field of an item
				q := end
				for j := 0; j <= it; j++ {
					q -= len(l.Items[j].Data)
				}
				p = q + []int{0, 8, 16, 17, 25, 27, 29, 21, 29, 37, 45, 44, 32, 52, 56}[r.Intn(15)]
			}
			x := d.extreme()
			for j := 0; j < w && p+j < end; j++ {
				b[p+j] = byte(x >> (8 * uint(j)))
			}
		}
		fixup(b)
		d.write(l.Phys, b)
	case 10: // a range overwritten
		l := leaf()
		n := uint64(1 + r.Intn(int(fs.BS)*3))
		b := make([]byte, n)
		switch r.Intn(3) {
		case 0:
			r.Read(b)
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		}
		d.write(l.Phys+uint64(r.Intn(int(fs.BS))), b)
	case 11: // swapped or copied
		a, b := leaf(), leaf()
		x, y := d.read(a.Phys, fs.BS), d.read(b.Phys, fs.BS)
		d.write(b.Phys, x)
		if r.Intn(2) == 0 {
			d.write(a.Phys, y)
		}
	case 12: // shifted
		l := leaf()
		b := d.read(l.Phys, fs.BS)
		s := 1 + r.Intn(40)
		if r.Intn(2) == 0 {
			copy(b[leafHdr+s:], append([]byte{}, b[leafHdr:len(b)-s]...))
		} else {
			copy(b[leafHdr:], b[leafHdr+s:])
		}
		fixup(b)
		d.write(l.Phys, b)
	case 13, 14: // forged leaf
		owner := []uint64{5, 5, 5, 1, 3, 256, 257}[r.Intn(7)]
		p := fs.slot()
		if r.Intn(3) == 0 {
			l := leaf()
			p, owner = l.Phys, l.Owner
		}
		d.write(p, buildLeaf(fs.FSID, fs.CTID, fs.BS, owner, fs.Gen+uint64(r.Intn(3)), p, d.forged(owner, v), r))
	case 15: // a superblock, or data
		switch r.Intn(3) {
		case 0:
			off := []uint64{superOff1, superOff2}[r.Intn(2)]
			b := d.read(off, 4096)
			for n := 1 + r.Intn(10); n > 0; n-- {
				b[r.Intn(1000)] = byte(r.Intn(256))
			}
			d.write(off, b)
		case 1:
			off := []uint64{superOff1, superOff2}[r.Intn(2)]
			b := d.read(off, 4096)
			p := []int{64, 72, 80, 88, 96, 112, 128, 136, 144, 148, 152, 156, 160, 196}[r.Intn(14)]
			le64(b[p:], d.extreme())
			d.write(off, b)
		case 2:
			if len(fs.writes) > 0 {
				w := fs.writes[r.Intn(len(fs.writes))]
				b := make([]byte, 1+r.Intn(5000))
				r.Read(b)
				d.write(w.off+uint64(r.Int63n(int64(w.n))), b)
			}
		}
	}
}

// intact tells whether everything an object depends on is undamaged. path
// holds the directories on the way as (tree, inode).
func (d *damage) intact(v *View, path [][2]uint64, n Node) bool {
	for _, p := range path {
		if d.hit[[3]uint64{p[0], tDirItem, p[1]}] || d.hit[[3]uint64{p[0], tInodeItem, p[1]}] {
			return false
		}
	}
	if d.hit[[3]uint64{n.Owner, tInodeItem, n.Ino}] || d.hit[[3]uint64{n.Owner, tExtentData, n.Ino}] {
		return false
	}
	_, ss := v.segs(n.Owner, n.Ino)
	for _, s := range ss {
		if s.inline != nil {
			continue
		}
		if d.chunk || s.bad != "" || s.phys+s.n > d.size {
			return false
		}
		for _, x := range d.spans {
			if s.phys < x.off+x.n && x.off < s.phys+s.n {
				return false
			}
		}
	}
	return true
}

type intactObj struct {
	Node
	dirs [][2]uint64
	ents []EntryV // the entries on the way from the root of the main tree, or nil
}

// intactObjs returns the files and links that must survive.
func (d *damage) intactObjs(v *View) (out []intactObj) {
	seen := map[[2]uint64]bool{}
	var visit func(owner, ino uint64, prefix string, path [][2]uint64, ents []EntryV, main bool)
	visit = func(owner, ino uint64, prefix string, path [][2]uint64, ents []EntryV, main bool) {
		k := [2]uint64{owner, ino}
		if seen[k] {
			return
		}
		seen[k] = true
		path = append(append([][2]uint64{}, path...), k)
		if d.hit[[3]uint64{owner, tDirItem, ino}] {
			return
		}
		for _, e := range v.entries(owner, ino) {
			if !fuseName(e.Name) {
				continue
			}
			o, i := e.target(owner)
			n := Node{Path: prefix + e.Name, Owner: o, Ino: i, E: e}
			en := append(append([]EntryV{}, ents...), e)
			if e.Type == ftDir {
				visit(o, i, n.Path+"/", path, en, main)
				continue
			}
			if v.inode(o, i) == nil || !d.intact(v, path, n) {
				continue
			}
			x := intactObj{Node: n, dirs: path}
			if main {
				x.ents = en
			}
			out = append(out, x)
		}
	}
	visit(oFS, 256, "", nil, nil, true)
	for _, id := range v.subvols() {
		if !d.hit[[3]uint64{oRoot, tRootItem, id}] {
			visit(id, 256, fmt.Sprintf("subvol_%d/", id), nil, nil, false)
		}
	}
	return
}

// descriptors damages item descriptors, so that they point out of their leaf,
// and checks that the items next to them are recorded.
func (c *Check) descriptors(i int) {
	r := c.rng(1<<20 + i)
	bs := blockSizes[r.Intn(len(blockSizes))]
	dir := c.dir(fmt.Sprint("e", i))
	defer os.RemoveAll(dir)
	fs := newFS(r, bs, sizeFor(r, bs, 2))
	used := map[recKey]bool{}
	if i%3 == 0 {
		generate(fs, genOpts{entries: 10 + r.Intn(40), subvols: r.Intn(3), gens: r.Intn(3), xattrs: true, specials: true})
	} else {
		for n := 10 + r.Intn(30); n > 0; n-- {
			fs.customLeaf(fs.slot(), used)
		}
	}
	want := c28state{}
	hit, kept := 0, 0
	for j := range fs.Log {
		l := &fs.Log[j]
		l.Block = append([]byte{}, l.Block...)
		style := r.Intn(4)
		for k, it := range l.Items {
			bad := false
			switch style {
			case 0:
				bad = k == 0
			case 1:
				bad = k == len(l.Items)-1
			case 2:
				bad = r.Intn(5) == 0
			}
			if !bad {
				want[recKey{it.Owner, it.Key, it.Gen}] = it.Data
				kept++
				continue
			}
			hit++
			d := l.Block[leafHdr+k*itemHdr+17:]
			switch free := uint32(bs) - leafHdr; r.Intn(6) {
			case 0: // starts outside
				le32(d, free+uint32(r.Intn(1<<20))+1)
				le32(d[4:], uint32(1+r.Intn(500)))
			case 1: // ends outside
				le32(d[4:], free+1+uint32(r.Intn(1<<20)))
			case 2: // by one byte
				le32(d, free-uint32(r.Intn(int(free))))
				le32(d[4:], free-binary.LittleEndian.Uint32(d)+1)
			case 3: // ends before it starts, if added up wrongly
				le32(d, uint32(1+r.Intn(int(free))))
				off := binary.LittleEndian.Uint32(d)
				le32(d[4:], uint32(r.Intn(int(min(200, off))))-off)
			case 4:
				le32(d, ^uint32(0)-uint32(r.Intn(200)))
				le32(d[4:], uint32(1+r.Intn(1000)))
			case 5:
				le32(d, ^uint32(0))
				le32(d[4:], ^uint32(0))
			}
		}
	}
	img, meta := filepath.Join(dir, "img"), filepath.Join(dir, "meta")
	fs.writeImage(img, imgOpts{noise: fs.noise(4), skipData: true})
	res := c.cli(runOpts{cpu: 60}, reconArgs(bs, fs.FSID, meta, img)...)
	what := fmt.Sprintf("case e%d (%s; %d damaged descriptors)", i, fs.describe(), hit)
	if res.Code != 0 {
		c.violated("%s: the scan failed: %v", what, res)
		return
	}
	got, ok := c.readIndex(what, meta)
	if !ok {
		return
	}
	for k, d := range want {
		if g, ok := got[k]; !ok || string(g) != string(d) {
			c.violated("%s: the intact item %v was not recorded as it is (recorded: %v) although only its neighbours are damaged; %s", what, k, ok, c.whereOf(fs, got, want))
			return
		}
	}
	c.count("damaged_descriptors", hit)
	c.count("intact_neighbours_recorded", kept)
	c.count("evaluations", 1)
	c.seen("case", "descriptors", i)
}

func checkC21(c *Check) {
	c.par(c.pick(40, 1000), c.descriptors)
	c.par(c.pick(160, 6000), func(i int) {
		r := c.rng(i)
		bs := blockSizes[r.Intn(3)]
		dir := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(dir)
		fs := newFS(r, bs, sizeFor(r, bs, 1))
		fs.leafPackMax = []int{0, 4, 8, 20}[r.Intn(4)]
		generate(fs, genOpts{entries: 15 + r.Intn(60), subvols: r.Intn(4), orphans: r.Intn(3), gens: r.Intn(3), specials: true, xattrs: true, deep: 1 + r.Intn(5), maxFile: 4})
		if i%9 == 4 {
			addCycles(fs, r)
			fs.flush(false)
		}
		v := fs.view(fs.records(nil))
		img := filepath.Join(dir, "img")
		fs.writeImage(img, imgOpts{noise: fs.noise(4)})
		f, err := os.OpenFile(img, os.O_RDWR, 0)
		must(err)
		defer f.Close()
		d := &damage{fs: fs, r: r, f: f, size: fs.Size, hit: map[[3]uint64]bool{}}
		n := 1 + r.Intn(4)
		if r.Intn(6) == 0 {
			n = 20
		}
		for ; n > 0; n-- {
			d.one(v)
		}
		if r.Intn(12) == 0 && fs.Size > minImageSize(bs) { // cut off
			cut := minImageSize(bs) + uint64(r.Int63n(int64(fs.Size-minImageSize(bs))))
			for _, l := range fs.Log {
				if l.Phys+bs > cut {
					d.parse(l.Phys, bs)
				}
			}
			d.size = cut
			must(f.Truncate(int64(cut)))
			d.kinds = append(d.kinds, "cut")
		}
		what := fmt.Sprintf("case %d (%s; damage %s)", i, fs.describe(), strings.Join(d.kinds, " "))
		for _, k := range d.kinds {
			c.seen("damage_kind", k)
		}
		lim := runOpts{cpu: 60, memMB: 6144}
		ran := func(res Res) Res {
			c.count("evaluations", 1)
			c.seen("case", i, res.Args[0])
			c.seen("outcome", res.Args[0], res.Code)
			if k := res.crash(); k != "" {
				c.violated("%s: crash (%s): %v", what, k, res)
			} else if res.Code == 1 && len(bytes.TrimSpace(res.Err)) == 0 {
				c.violated("%s: failed without a message: %v", what, res)
			}
			return res
		}
		ran(c.run(lim, "identify", "-p=false", "--block-size", fmt.Sprint(bs), img))
		if r.Intn(3) == 0 {
			ran(c.run(lim, "identify", "-p=false", img))
		}
		meta := filepath.Join(dir, "meta")
		res := ran(c.run(lim, reconArgs(bs, fs.FSID, meta, img)...))
		if res.Code != 0 {
			c.violated("%s: scanning failed: %v", what, res)
			return
		}
		ran(c.run(lim, "dump-index", "--metadata", meta))
		ls := ran(c.run(lim, "ls", "--recursive", "--inode", "--metadata", meta, "/"))
		dst := filepath.Join(dir, "dst")
		rec := ran(c.run(lim, "recover", "--metadata", meta, img, dst))
		if c.failed() {
			return
		}
		if ls.Code != 0 || rec.Code != 0 {
			c.violated("%s: listing or recovering failed: %v\n%v", what, ls, rec)
			return
		}
		objs := d.intactObjs(v)
		// Where things are in the listing and in the recovered tree
		lines := map[string]bool{}
		for _, l := range strings.Split(string(ls.Out), "\n") {
			lines[strings.Join(strings.Fields(l), " ")] = true
		}
		at := map[string][]string{}
		filepath.Walk(dst, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				at[filepath.Base(p)] = append(at[filepath.Base(p)], p)
			}
			return nil
		})
		for _, x := range objs {
			c.count("intact_objects", 1)
			c.count("evaluations", 1)
			c.seen("case", i, x.Path)
			{
				w := wantLine(v, x.Owner, x.E, true)
				l := fmt.Sprintf("%s %s%s %s %s %s %s %s %s", w.Ino, w.Type, w.Perm, w.Nlink, w.UID, w.GID, w.Size, w.Change, w.Name)
				// Of a subvolume without a directory entry, ls shows nothing
				if x.ents != nil && !lines[strings.Join(strings.Fields(l), " ")] {
					c.violated("%s: undamaged %q (tree %d inode %d) is not listed: want %q in\n%.3000s", what, x.Path, x.Owner, x.Ino, l, ls.Out)
					return
				}
			}
			if !recoverable(x.E) {
				continue
			}
			problem := "is not there"
			for _, p := range at[x.E.Name] {
				if x.E.Type == ftSymlink {
					w, ok := v.linkTarget(x.Owner, x.Ino)
					if t, err := os.Readlink(p); err == nil && (t == w || !ok) {
						problem = ""
						break
					}
					problem = "has another target"
					continue
				}
				if fi, err := os.Lstat(p); err != nil || !fi.Mode().IsRegular() {
					continue
				}
				if problem = compareFile(v, x.Owner, x.Ino, p); problem == "" {
					break
				}
			}
			if problem != "" {
				c.violated("%s: undamaged %q (tree %d inode %d) was not recovered: %s: %v", what, x.Path, x.Owner, x.Ino, problem, rec)
				return
			}
			c.count("intact_objects_recovered", 1)
		}
		// The mounted view
		m, mres := c.mount(dir, mountOpts{cpu: 60, memMB: 6144}, "--metadata", meta, img)
		if m == nil {
			ran(mres)
			c.violated("%s: mounting failed: %v", what, mres)
			return
		}
		defer m.kill()
		c.count("evaluations", 1)
		k := &kclient{c: c, m: m, v: v, what: what, imgSize: d.size, quiet: true}
		k.roam(r, c.pick(150, 400))
		if rt, ok := k.rawRoot(); ok && !k.stop.Load() {
			for _, x := range objs {
				if x.ents == nil || r.Intn(3) > 0 || k.stop.Load() {
					continue
				}
				n := rt
				ok := true
				for j, e := range x.ents {
					if j < len(x.ents)-1 {
						id, _, errno := m.lookup(n.id, e.Name)
						if errno != 0 {
							// The directory's own inode may be missing
							if o, ino := e.target(n.owner); v.inode(o, ino) != nil {
								k.bad("lookup of %q on the way to undamaged %q: error %d", e.Name, x.Path, errno)
							}
							ok = false
							break
						}
						o, ino := e.target(n.owner)
						n = knode{id: id, owner: o, ino: ino, e: e, path: n.path + "/" + e.Name}
						continue
					}
					n, ok = k.look(n, e)
				}
				if ok && x.E.Type == ftReg {
					k.readFile(r, n, 2)
					c.count("intact_objects_served", 1)
				}
			}
		}
		if t := m.trouble(); t != "" && !k.stop.Load() {
			c.violated("%s: the serving process crashed: %s", what, t)
		}
		if i < 3 {
			c.sample(map[string]any{"image": fs.describe(), "damage": d.kinds, "intact_objects": len(objs)})
		}
	})
}

// rawRoot looks up the root of the tree without comparing it.
func (k *kclient) rawRoot() (knode, bool) {
	id, _, errno := k.m.lookup(1, "rescue")
	if errno != 0 {
		if t := k.m.trouble(); t != "" {
			k.bad("")
		}
		return knode{}, false
	}
	return knode{id: id, owner: oFS, ino: 256, e: EntryV{Type: ftDir}}, true
}

// roam makes all kinds of requests on whatever the mounted view shows.
func (k *kclient) roam(r *rand.Rand, steps int) {
	rt, ok := k.rawRoot()
	if !ok {
		return
	}
	type nd struct {
		id   uint64
		mode uint32
		size uint64
	}
	nodes := []nd{{rt.id, sIFDIR, 0}}
	m := k.m
	for ; steps > 0 && m.trouble() == ""; steps-- {
		n := nodes[r.Intn(len(nodes))]
		if r.Intn(3) == 0 {
			n = nodes[len(nodes)-1]
		}
		m.getattr(n.id, nil)
		switch n.mode & 0170000 {
		case sIFDIR:
			es, _ := m.readdir(n.id, 65536, r.Intn(2) == 0)
			for t := 0; t < 4 && len(es) > 0; t++ {
				e := es[r.Intn(len(es))]
				if e.Name == "." || e.Name == ".." {
					continue
				}
				if id, a, errno := m.lookup(n.id, e.Name); errno == 0 {
					nodes = append(nodes, nd{id, a.Mode, a.Size})
				}
			}
		case sIFLNK:
			m.readlink(n.id)
		default:
			if fh, errno := m.open(n.id, 0100000, false); errno == 0 {
				m.getattr(n.id, &fh)
				for t := 0; t < 4; t++ {
					off := []uint64{0, n.size / 2, n.size, 1<<63 - 5, uint64(r.Intn(20000))}[r.Intn(5)]
					m.read(n.id, fh, off, uint32(1+r.Intn(131072)))
				}
				m.release(n.id, fh, false)
			}
		}
		l, _, _ := m.xattr(n.id, "", 65536)
		for _, x := range bytes.Split(l, []byte{0}) {
			if len(x) > 0 {
				m.xattr(n.id, string(x), 65536)
			}
		}
	}
	if t := m.trouble(); t != "" {
		k.bad("the serving process crashed")
	}
}
