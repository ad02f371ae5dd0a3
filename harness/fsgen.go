package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
)

// genOpts steers the random file system.
type genOpts struct {
	entries   int // entries to create overall
	subvols   int
	orphans   int // subvolumes without a directory entry
	gens      int // generations after the first
	maxFile   int // largest data extent, in sectors
	huge      bool
	specials  bool
	xattrs    bool
	encoded   bool // compressed or encrypted extents
	lineNames bool // Names with characters that end lines
	wildNames bool // any byte except NUL and slash
	collide   bool // names with equal hashes
	badHash   bool // entries recorded under a wrong hash
	missing   bool // some entries without an inode item
	noRename  bool
	wide      int  // entries of one large directory
	chain     int  // directories below each other
	chainName int  // longest name among them
	far       bool // on a (sparse) device of several GiB
	deep      int
	diskLinks bool // some targets of links in extents of their own
	scale     bool // many of everything at once
}

type dirRef struct{ owner, ino uint64 }

type genState struct {
	fs    *FS
	r     *rand.Rand
	o     genOpts
	dirs  []dirRef
	depth map[dirRef]int
	files []dirRef
	refl  []ExtentV // extents that can be shared
	pairs [][2]string
}

// collisionPairs returns names with equal hashes (found by birthday search).
var collisionPairs = sync.OnceValue(func() (pairs [][2]string) {
	r := rand.New(rand.NewSource(42))
	seen := map[string]bool{}
	byHash := map[uint32]string{}
	for len(pairs) < 12 {
		b := make([]byte, 7)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz012345"[r.Intn(32)]
		}
		if seen[string(b)] {
			continue
		}
		seen[string(b)] = true
		h := refNameHash(b)
		if o, ok := byHash[h]; ok {
			pairs = append(pairs, [2]string{o, string(b)})
			continue
		}
		byHash[h] = string(b)
	}
	return
})

func findCollisions() [][2]string { return collisionPairs() }

// collisionGroup returns n names of several lengths with equal hashes, made by
// appending four bytes that lead to the same remainder.
func collisionGroup(r *rand.Rand, n int) (out []string) {
	var tab [256]uint32
	var inv [256]uint32 // index by the high byte
	for i := range tab {
		c := uint32(i)
		for k := 0; k < 8; k++ {
			c = c>>1 ^ c&1*0x82F63B78
		}
		tab[i] = c
		inv[c>>24] = uint32(i)
	}
	back := refNameHash([]byte(randName(r, 8)))
	for k := 0; k < 4; k++ {
		x := inv[back>>24]
		back = (back^tab[x])<<8 | x
	}
	for len(out) < n {
		p := randName(r, 1+r.Intn(20))
		x := refNameHash([]byte(p)) ^ back
		ok := true
		for k := 0; k < 4; k++ {
			b := byte(x >> uint(8*k))
			ok = ok && (b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '+')
		}
		if ok {
			out = append(out, p+string([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}))
		}
	}
	return
}

func (g *genState) name() string {
	r := g.r
	switch r.Intn(12) {
	case 0:
		return strings.Repeat("n", 1+r.Intn(255))[:1+r.Intn(1)] + randName(r, 1+r.Intn(200))
	case 1:
		n := randName(r, 255)
		return n
	case 2:
		return []string{"a", "A", "aa", "a.", ".a", "...", "..a", "a b", "x:", "-", "ü", "日本語", "naïve.txt", "~", "#", "*", "a;b", "$HOME", "'q'", "\"dq\"", "back\\slash", "\\", "C:\\x", "..\\", "end\\", "-rf", "--help", "%s%n", "a\tb", " ", "trail ", ".hidden", "..."}[r.Intn(33)]
	case 3:
		if g.o.lineNames && r.Intn(2) == 0 {
			return []string{"new\nline", "\n", "\t", "\xff", "\xffx\xff", "a\tb\tc", " lead", "  two", "   ", "\v", "\f", "x\r", "\x01\x02", "\"quo\tted\"", "\"", "\\n", "\n:", "a\nd\nb:\n", "\x1b[31mred", "ÿ\xff\u200b", "\tend", "end\t", "end\n", "\"a\\tb\""}[r.Intn(24)]
		}
		if g.o.wildNames {
			b := make([]byte, 1+r.Intn(30))
			for i := range b {
				for b[i] == 0 || b[i] == '/' {
					b[i] = byte(r.Intn(256))
				}
			}
			if s := string(b); s != "." && s != ".." {
				return s
			}
		}
	}
	return randName(r, 1+r.Intn(14))
}

func randName(r *rand.Rand, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-."
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	if b[0] == '.' || b[0] == '-' {
		b[0] = 'q'
	}
	return string(b)
}

func (g *genState) ts() TS {
	r := g.r
	switch r.Intn(6) {
	case 5:
		return TS{-1 - r.Int63n(1<<32), uint32(r.Intn(1000000000))}
	case 0:
		return TS{int64(r.Uint32()), 0}
	case 1:
		return TS{1 << 32, uint32(r.Intn(1000000000))}
	case 2:
		return TS{int64(r.Int63n(1 << 33)), 999999999}
	case 3:
		return TS{0, 0}
	}
	return TS{1e9 + int64(r.Intn(8e8)), uint32(r.Intn(1000000000))}
}

func (g *genState) attrs(kind uint32) InodeV {
	r := g.r
	u32 := func() uint32 {
		if r.Intn(3) == 0 {
			return r.Uint32()
		}
		return uint32(r.Intn(70000))
	}
	mode := uint32(r.Intn(01000))
	if r.Intn(4) == 0 {
		mode |= uint32(1+r.Intn(7)) << 9
	}
	nlink := 1 + uint32(r.Intn(5))
	if r.Intn(8) == 0 {
		nlink = []uint32{0, 1<<16 + 1, 1 << 31, 1<<32 - 1}[r.Intn(4)]
	}
	return InodeV{Gen: g.fs.Gen, TransID: g.fs.Gen, Nlink: nlink, UID: u32(), GID: u32(),
		Mode: kind | mode, Atime: g.ts(), Ctime: g.ts(), Mtime: g.ts(), Otime: g.ts(),
		Flags: r.Uint64(), Seq: r.Uint64()}
}

const (
	sIFDIR  = 0040000
	sIFREG  = 0100000
	sIFLNK  = 0120000
	sIFCHR  = 0020000
	sIFBLK  = 0060000
	sIFIFO  = 0010000
	sIFSOCK = 0140000
)

func (g *genState) newIno(owner uint64) uint64 {
	n := g.fs.nextIno[owner]
	if n == 0 {
		n = 257
		if g.fs.big {
			n = []uint64{257, 1<<16 - 5, 1<<31 - 3, 1<<32 - 6, 1<<32 + 256, 1<<48 + 256, 1<<63 - 5}[g.r.Intn(7)]
		}
	}
	g.fs.nextIno[owner] = n + 1 + uint64(g.r.Intn(3))
	return n
}

// link adds a directory entry. It reports false if the name is taken.
func (g *genState) link(d dirRef, e EntryV) bool {
	fs := g.fs
	h := uint64(refNameHash([]byte(e.Name)))
	if g.o.badHash && g.r.Intn(4) == 0 {
		h = uint64(g.r.Uint32())
	}
	// A name may exist once only, under whatever hash.
	for k, it := range fs.trees[d.owner] {
		if k.Obj == d.ino && k.Type == tDirItem {
			for _, x := range it.v.([]EntryV) {
				if x.Name == e.Name {
					return false
				}
			}
		}
	}
	// A name deleted earlier lives on in old leaves under its own key, which
	// the new entry must replace, not duplicate.
	for _, l := range fs.Log {
		if l.Owner != d.owner || !g.o.badHash {
			continue
		}
		for _, it := range l.Items {
			if it.Key.Obj == d.ino && it.Key.Type == tDirItem {
				for _, x := range it.V.([]EntryV) {
					if x.Name == e.Name {
						return false
					}
				}
			}
		}
	}
	k := Key{d.ino, tDirItem, h}
	var es []EntryV
	if it := fs.get(d.owner, k); it != nil {
		es = append(es, it.v.([]EntryV)...)
	}
	es = append(es, e)
	fs.set(d.owner, k, encEntries(es, fs.Gen), es)
	ix := fs.dirIdx[[2]uint64{d.owner, d.ino}] + 2
	if fs.big && ix == 2 {
		ix = []uint64{2, 250, 1<<32 - 4, 1<<63 - 3}[g.r.Intn(4)]
	}
	fs.dirIdx[[2]uint64{d.owner, d.ino}] = ix
	fs.set(d.owner, Key{d.ino, tDirIndex, ix}, encEntries([]EntryV{e}, fs.Gen), []EntryV{e})
	if !e.IsSub() {
		b := make([]byte, 10+len(e.Name))
		le64(b, ix)
		le16(b[8:], uint16(len(e.Name)))
		copy(b[10:], e.Name)
		fs.set(d.owner, Key{e.Loc.Obj, tInodeRef, d.ino}, b, nil)
	}
	return true
}

// unlink removes a random entry of d from the current state.
func (g *genState) unlinkSome(d dirRef) (EntryV, bool) {
	fs := g.fs
	var keys []Key
	for k := range fs.trees[d.owner] {
		if k.Obj == d.ino && k.Type == tDirItem {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return EntryV{}, false
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Off < keys[j].Off })
	k := keys[g.r.Intn(len(keys))]
	es := fs.get(d.owner, k).v.([]EntryV)
	i := g.r.Intn(len(es))
	e := es[i]
	ns := append(append([]EntryV{}, es[:i]...), es[i+1:]...)
	if len(ns) == 0 {
		fs.del(d.owner, k)
	} else {
		fs.set(d.owner, k, encEntries(ns, fs.Gen), ns)
	}
	return e, true
}

func (g *genState) setInode(owner, ino uint64, v InodeV) {
	g.fs.set(owner, Key{ino, tInodeItem, 0}, encInode(v), v)
}

func (g *genState) xattrs(owner, ino uint64) {
	r := g.r
	byHash := map[uint32][]EntryV{}
	n := r.Intn(4)
	if r.Intn(10) == 0 {
		n = 20
	}
	var names []string
	if g.o.collide && r.Intn(2) == 0 {
		p := findCollisions()[r.Intn(12)]
		names = append(names, p[0], p[1])
		if r.Intn(2) == 0 {
			names = append(names, collisionGroup(r, 3+r.Intn(3))...)
		}
	}
	for i := 0; i < n; i++ {
		names = append(names, []string{"user.", "security.", "trusted.x", "system.posix_acl_"}[r.Intn(4)]+randName(r, 1+r.Intn(40)))
		if r.Intn(12) == 0 { // the longest that there can be
			nm := names[len(names)-1]
			names[len(names)-1] = nm + randName(r, 255-len(nm)-r.Intn(2))
		}
	}
	seen := map[string]bool{}
	for _, nm := range names {
		if seen[nm] {
			continue
		}
		seen[nm] = true
		p := make([]byte, []int{0, 1, 5, 100, 226, 300, 1200}[r.Intn(7)])
		r.Read(p)
		h := refNameHash([]byte(nm))
		if len(byHash[h]) > 0 && len(p) > 300 { // all go into one item
			p = p[:300]
		}
		byHash[h] = append(byHash[h], EntryV{Name: nm, Type: ftXattr, Payload: p})
	}
	for h, es := range byHash {
		g.fs.set(owner, Key{ino, tXattr, uint64(h)}, encEntries(es, g.fs.Gen), es)
	}
}

func (g *genState) mkFile(owner, ino uint64) {
	r, fs := g.r, g.fs
	iv := g.attrs(sIFREG)
	setExt := func(at uint64, e ExtentV) {
		fs.set(owner, Key{ino, tExtentData, at}, encExtent(e, fs.Gen), e)
	}
	inlineMax := int(fs.BS) - leafHdr - itemHdr - 21
	if inlineMax > 4000 {
		inlineMax = 4000
	}
	switch c := r.Intn(14); {
	case c == 0: // empty
		iv.Size = 0
	case c == 1: // no extents at all but a size
		iv.Size = uint64(r.Intn(100000))
	case c <= 4: // inline
		n := 1 + r.Intn(inlineMax)
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(200)
		}
		b := make([]byte, n)
		r.Read(b)
		if r.Intn(4) == 0 { // where other extents have their address
			for x := 0; x < n && x < 8+r.Intn(60); x++ {
				b[x] = 0
			}
		}
		setExt(0, ExtentV{Type: exInline, Inline: b, RAM: uint64(n)})
		iv.Size = uint64(n)
		switch r.Intn(8) {
		case 0:
			iv.Size = uint64(r.Intn(n + 1)) // recorded shorter
		case 1:
			iv.Size = uint64(n + r.Intn(5000)) // zero tail
		case 2, 3: // more data follows
			at := (uint64(n) + 4095) &^ 4095
			for k := 1 + r.Intn(3); k > 0; k-- {
				m := uint64(1+r.Intn(3)) * 4096
				setExt(at, ExtentV{Type: exReg, RAM: m, Num: m, DiskNum: m, Disk: fs.allocData(m)})
				at += m
				iv.Size = at - uint64(r.Intn(3000))
				at += uint64(r.Intn(2)) * 4096
			}
		}
	default:
		pos := uint64(0)
		var bounds []uint64
		nseg := 1 + r.Intn(6)
		if r.Intn(20) == 0 {
			nseg = 40
		}
		if g.o.encoded && r.Intn(3) == 0 && c < 8 {
			// a compressed inline extent
			b := make([]byte, 1+r.Intn(500))
			r.Read(b)
			ram := uint64(len(b)) * uint64(1+r.Intn(5))
			if ram > 4096 {
				ram = 4096
			}
			setExt(0, ExtentV{Type: exInline, Compr: uint8(1 + r.Intn(3)), Inline: b, RAM: ram})
			iv.Size = ram
			g.setInode(owner, ino, iv)
			return
		}
		for s := 0; s < nseg; s++ {
			secs := uint64(1 + r.Intn(g.o.maxFile))
			if r.Intn(3) > 0 {
				secs = uint64(1 + r.Intn(4))
			}
			n := secs * 4096
			e := ExtentV{Type: exReg, RAM: n, Num: n, DiskNum: n}
			switch r.Intn(9) {
			case 0: // explicit hole
				e.DiskNum = 0
				e.Off = uint64(r.Intn(4)/3*(1+r.Intn(9))) * 4096 // rest of a hole
				if g.o.huge && r.Intn(2) == 0 {
					e.Num = (1 + uint64(r.Int63n(1<<26))) * 4096 * uint64(1+r.Intn(8))
					e.RAM = e.Num
				}
			case 1: // implicit hole
				if g.o.huge && r.Intn(2) == 0 {
					n = uint64(1+r.Intn(1<<22)) * 4096
				}
				pos += n
				continue
			case 2: // preallocated
				e.Type = exPrealloc
				e.Disk = fs.allocData(n)
				if r.Intn(2) == 0 { // rest of a larger one
					e.Off = uint64(1+r.Intn(5)) * 4096
					e.DiskNum, e.RAM = n+e.Off, n+e.Off
					e.Disk = fs.allocData(e.DiskNum)
				}
			case 3: // middle of a larger extent
				big := n + uint64(r.Intn(5))*4096
				e.Disk, e.DiskNum, e.RAM = fs.allocData(big), big, big
				if big > n {
					e.Off = uint64(r.Intn(int((big-n)/4096)+1)) * 4096
				}
			case 4: // shared
				if len(g.refl) > 0 {
					e = g.refl[r.Intn(len(g.refl))]
					if e.Num > 4096 && r.Intn(2) == 0 { // part of it
						cut := uint64(r.Intn(int(e.Num/4096))) * 4096
						e.Off += cut
						e.Num -= cut
					}
					break
				}
				fallthrough
			default:
				e.Disk = fs.allocData(n)
				if g.o.encoded && r.Intn(3) == 0 {
					if x := r.Intn(8); x == 0 {
						e.Other = []uint16{1, 256, 1 << 15}[r.Intn(3)]
					} else if x == 1 {
						e.Encr = 1
					} else {
						e.Compr = uint8(1 + r.Intn(3))
						e.RAM *= 2
						e.Num *= 2
					}
				}
			}
			if e.Disk != 0 && e.Type == exReg && e.Compr == 0 && e.Encr == 0 && e.Other == 0 {
				g.refl = append(g.refl, e)
			}
			if e.Disk != 0 {
				g.extentItem(e)
			}
			setExt(pos, e)
			bounds = append(bounds, pos)
			pos += e.Num
		}
		iv.Size = pos
		switch r.Intn(5) {
		case 3: // everything from some extent on is past the end
			if len(bounds) > 0 {
				iv.Size = bounds[r.Intn(len(bounds))]
			}
		case 0:
			if pos > 4096 {
				iv.Size = pos - uint64(r.Intn(4096))
			}
		case 1:
			if pos > 0 {
				iv.Size = pos - uint64(r.Int63n(int64(pos)))
			}
		case 2:
			iv.Size = pos + uint64(r.Intn(10000))
		}
		iv.Nbytes = pos
	}
	g.setInode(owner, ino, iv)
}

func (g *genState) extentItem(e ExtentV) {
	b := make([]byte, 24+29)
	le64(b, 1)
	le64(b[8:], g.fs.Gen)
	le64(b[16:], 1)
	b[24] = 178
	g.fs.set(oExtent, Key{e.Disk, tExtentItem, e.DiskNum}, b, nil)
}

func (g *genState) newSubvol() uint64 {
	fs := g.fs
	id := fs.nextSub
	switch g.r.Intn(4) {
	case 0:
		fs.nextSub += uint64(1 + g.r.Intn(1000))
	default:
		fs.nextSub++
	}
	ri := make([]byte, 439)
	copy(ri, encInode(InodeV{Size: 3, Nlink: 1, Mode: sIFDIR | 0755}))
	le64(ri[160:], fs.Gen)
	le64(ri[168:], 256)
	le32(ri[216:], 1)
	le64(ri[239:], fs.Gen)
	fs.set(oRoot, Key{id, tRootItem, 0}, ri, nil)
	if g.r.Intn(4) == 0 { // snapshots have a non-zero offset
		fs.del(oRoot, Key{id, tRootItem, 0})
		fs.set(oRoot, Key{id, tRootItem, fs.Gen}, ri, nil)
	}
	g.rootDir(id)
	return id
}

func (g *genState) rootDir(owner uint64) {
	g.setInode(owner, 256, g.attrs(sIFDIR))
	b := append(make([]byte, 10), ".."...)
	le16(b[8:], 2)
	g.fs.set(owner, Key{256, tInodeRef, 256}, b, nil)
	d := dirRef{owner, 256}
	g.dirs = append(g.dirs, d)
	if g.o.xattrs && g.r.Intn(2) == 0 {
		g.xattrs(owner, 256)
	}
}

// longTarget returns a target up to the longest that the system allows.
func longTarget(r *rand.Rand, bs int) string {
	n := min(4095, bs-leafHdr-itemHdr-21)
	if r.Intn(2) == 0 {
		n -= r.Intn(n)
	}
	return randName(r, n)
}

func (g *genState) addEntry(d dirRef) {
	r, fs := g.r, g.fs
	name := g.name()
	ino := g.newIno(d.owner)
	loc := Key{ino, tInodeItem, 0}
	kind := r.Intn(20)
	e := EntryV{Name: name, Loc: loc}
	switch {
	case kind < 5 && g.depth[d] < 1+g.o.deep:
		e.Type = ftDir
	case kind < 7:
		e.Type = ftSymlink
	case kind < 9 && g.o.specials:
		e.Type = []uint8{ftChr, ftBlk, ftFifo, ftSock}[r.Intn(4)]
	case kind == 9 && len(g.files) > 0: // hard link
		var c []dirRef
		for _, f := range g.files {
			if f.owner == d.owner {
				c = append(c, f)
			}
		}
		if len(c) > 0 {
			e.Loc.Obj = c[r.Intn(len(c))].ino
			e.Type = ftReg
			g.link(d, e)
			return
		}
		fallthrough
	default:
		e.Type = ftReg
	}
	if !g.link(d, e) {
		return
	}
	switch e.Type {
	case ftDir:
		g.setInode(d.owner, ino, g.attrs(sIFDIR))
		nd := dirRef{d.owner, ino}
		g.dirs = append(g.dirs, nd)
		g.depth[nd] = g.depth[d] + 1
	case ftSymlink:
		iv := g.attrs(sIFLNK)
		t := []string{"a", "/etc/passwd", "../../x", "dangling/" + randName(r, 20), strings.Repeat("l/", 500) + "end", "ü", ".", "space ", " lead", "tab\t", "line\nbreak", "a//b/", "/", "..", "\xff\xfe", "C:\\x", strings.Repeat("m", 1+r.Intn(1000)), longTarget(r, int(fs.BS)), "end/", "%s%d", "~/x", "a\u0300"}[r.Intn(22)]
		iv.Size = uint64(len(t))
		g.setInode(d.owner, ino, iv)
		ex := ExtentV{Type: exInline, Inline: []byte(t), RAM: uint64(len(t))}
		if g.o.diskLinks && r.Intn(3) == 0 {
			off := uint64(r.Intn(3)) * 4096
			disk := fs.allocData(off + 4096)
			if p, ok := fs.physOf(disk); ok {
				n := uint64(1 + r.Intn(600))
				for i := uint64(0); i < n; i++ {
					if fs.pat(p+off+i) == 0 {
						n = i
					}
				}
				if n > 0 {
					ex = ExtentV{Type: exReg, Disk: disk, DiskNum: off + 4096, Off: off, Num: 4096, RAM: off + 4096}
					iv.Size = n
					g.setInode(d.owner, ino, iv)
				}
			}
		}
		fs.set(d.owner, Key{ino, tExtentData, 0}, encExtent(ex, fs.Gen), ex)
	case ftReg:
		g.mkFile(d.owner, ino)
		g.files = append(g.files, dirRef{d.owner, ino})
	case ftChr, ftBlk, ftFifo, ftSock:
		iv := g.attrs(map[uint8]uint32{ftChr: sIFCHR, ftBlk: sIFBLK, ftFifo: sIFIFO, ftSock: sIFSOCK}[e.Type])
		if e.Type == ftChr || e.Type == ftBlk {
			iv.Rdev = uint64(r.Intn(1<<12))<<20 | uint64(r.Intn(1<<20))
		}
		g.setInode(d.owner, ino, iv)
	}
	if g.o.missing && r.Intn(15) == 0 && e.Type != ftDir {
		fs.del(d.owner, Key{ino, tInodeItem, 0})
	}
	if g.o.missing && r.Intn(6) == 0 && e.Type == ftSymlink {
		fs.del(d.owner, Key{ino, tExtentData, 0})
	}
	if g.o.xattrs && r.Intn(3) == 0 {
		g.xattrs(d.owner, ino)
	}
}

// generate fills the file system with random content over several
// generations.
func generate(fs *FS, o genOpts) {
	if o.maxFile == 0 {
		o.maxFile = 8
	}
	g := &genState{fs: fs, r: fs.r, o: o, depth: map[dirRef]int{}}
	r := fs.r
	// Trees and devices
	dev := make([]byte, 98)
	le64(dev, 1)
	le64(dev[8:], fs.Size)
	fs.set(oChunk, Key{1, tDevItem, 1}, dev, nil)
	fs.addChunk(1, 2)
	for _, t := range []uint64{2, 4, 5, 7} {
		ri := make([]byte, 439)
		le64(ri[160:], fs.Gen)
		fs.set(oRoot, Key{t, tRootItem, 0}, ri, nil)
	}
	for i := 0; i < 3+r.Intn(5); i++ {
		b := make([]byte, 4*(1+r.Intn(500)))
		r.Read(b)
		fs.set(oCsum, Key{^uint64(9), tExtentCsum, uint64(r.Intn(1<<30)) << 12}, b, nil)
	}
	bg := make([]byte, 24)
	fs.set(oExtent, Key{1 << 20, tBlockGroup, 1 << 20}, bg, nil)
	g.rootDir(oFS)
	if o.deep == 0 {
		g.o.deep = 4
	}
	subsLeft, orphLeft := o.subvols, o.orphans
	addSubs := func(n int) {
		for ; n > 0 && subsLeft > 0; n-- {
			subsLeft--
			d := g.dirs[r.Intn(len(g.dirs))]
			id := g.newSubvol()
			for try := 0; try < 20; try++ {
				e := EntryV{Name: g.name(), Type: ftDir, Loc: Key{id, tRootItem, ^uint64(0)}}
				if g.link(d, e) {
					nm := e.Name
					b := make([]byte, 18+len(nm))
					le64(b, d.ino)
					le16(b[16:], uint16(len(nm)))
					copy(b[18:], nm)
					fs.set(oRoot, Key{id, tRootBackref, d.owner}, b, nil)
					fs.set(oRoot, Key{d.owner, tRootRef, id}, b, nil)
					break
				}
			}
			for i := 0; i < 1+r.Intn(5); i++ {
				g.addEntry(dirRef{id, 256})
			}
		}
	}
	perGen := o.entries / (o.gens + 1)
	for gen := 0; gen <= o.gens; gen++ {
		for i := 0; i < perGen || gen == 0 && i < 3; i++ {
			g.addEntry(g.dirs[r.Intn(len(g.dirs))])
		}
		if o.collide && gen == 0 {
			p := findCollisions()
			for i := 0; i < 3; i++ {
				d := g.dirs[r.Intn(len(g.dirs))]
				pr := p[r.Intn(len(p))][:]
				if r.Intn(2) == 0 {
					pr = collisionGroup(r, 3+r.Intn(5))
				}
				for _, nm := range pr {
					ino := g.newIno(d.owner)
					if r.Intn(4) == 0 {
						if g.link(d, EntryV{Name: nm, Type: ftDir, Loc: Key{ino, tInodeItem, 0}}) {
							g.setInode(d.owner, ino, g.attrs(sIFDIR))
							nd := dirRef{d.owner, ino}
							g.depth[nd] = g.depth[d] + 1
							g.dirs = append(g.dirs, nd)
						}
						continue
					}
					if g.link(d, EntryV{Name: nm, Type: ftReg, Loc: Key{ino, tInodeItem, 0}}) {
						g.mkFile(d.owner, ino)
						g.files = append(g.files, dirRef{d.owner, ino})
					}
				}
			}
		}
		if gen == 0 && o.chain > 0 {
			d := g.dirs[r.Intn(len(g.dirs))]
			for i := 0; i < o.chain; i++ {
				ino := g.newIno(d.owner)
				if !g.link(d, EntryV{Name: randName(r, 1+r.Intn(1+o.chainName)), Type: ftDir, Loc: Key{ino, tInodeItem, 0}}) {
					continue
				}
				g.setInode(d.owner, ino, g.attrs(sIFDIR))
				nd := dirRef{d.owner, ino}
				g.depth[nd] = g.depth[d] + 1
				g.dirs = append(g.dirs, nd)
				d = nd
			}
		}
		addSubs((o.subvols + o.gens) / (o.gens + 1))
		if gen == 0 && o.wide > 0 {
			d := g.dirs[r.Intn(len(g.dirs))]
			if r.Intn(2) == 0 { // in a subvolume, if there is one
				for n := 0; n < 50 && d.owner == oFS; n++ {
					d = g.dirs[r.Intn(len(g.dirs))]
				}
			}
			for i := 0; i < o.wide; i++ {
				ino := g.newIno(d.owner)
				if g.link(d, EntryV{Name: randName(r, 3+r.Intn(20)), Type: ftReg, Loc: Key{ino, tInodeItem, 0}}) {
					g.setInode(d.owner, ino, g.attrs(sIFREG))
				}
			}
		}
		for orphLeft > 0 && (gen == o.gens || r.Intn(2) == 0) {
			orphLeft--
			id := g.newSubvol()
			for i := 0; i < 1+r.Intn(6); i++ {
				g.addEntry(dirRef{id, 256})
			}
		}
		if gen > 0 {
			g.mutate()
		}
		if gen == o.gens && o.scale {
			g.scale()
		}
		fs.flush(gen == 0 || r.Intn(5) == 0)
	}
}

// scale adds objects of unusual numbers of parts: directories of many entries
// and of many directories, a file of many extents, one with many extended
// attributes and one with a large extent.
func (g *genState) scale() {
	r, fs := g.r, g.fs
	serial := 0
	add := func(d dirRef, prefix string, typ uint8) uint64 {
		for {
			serial++
			e := EntryV{Name: fmt.Sprintf("%s-%d-%s", prefix, serial, randName(r, 1+r.Intn(12))), Type: typ}
			k := Key{d.ino, tDirItem, uint64(refNameHash([]byte(e.Name)))}
			if fs.get(d.owner, k) != nil {
				continue
			}
			ino := g.newIno(d.owner)
			e.Loc = Key{ino, tInodeItem, 0}
			fs.set(d.owner, k, encEntries([]EntryV{e}, fs.Gen), []EntryV{e})
			if typ == ftDir {
				g.setInode(d.owner, ino, g.attrs(sIFDIR))
			}
			return ino
		}
	}
	top := g.dirs[r.Intn(len(g.dirs))]
	o := top.owner
	many := dirRef{o, add(top, "many", ftDir)}
	for n := 10001 + r.Intn(4000); n > 0; n-- {
		ino := add(many, "f", ftReg)
		iv := g.attrs(sIFREG)
		if n%3 == 0 {
			b := []byte(randName(r, 1+r.Intn(20)))
			e := ExtentV{Type: 0, Inline: b, RAM: uint64(len(b))}
			fs.set(o, Key{ino, tExtentData, 0}, encExtent(e, fs.Gen), e)
			iv.Size = uint64(len(b))
		}
		g.setInode(o, ino, iv)
	}
	dirs := dirRef{o, add(top, "dirs", ftDir)}
	for n := 1200 + r.Intn(600); n > 0; n-- {
		ino := add(dirs, "d", ftDir)
		if n%3 == 0 {
			add(dirRef{o, ino}, "e", ftDir)
		}
	}
	// A file in thousands of pieces
	ino := add(top, "pieces", ftReg)
	iv := g.attrs(sIFREG)
	const secs = 8
	disk := fs.allocData(secs * 4096)
	at := uint64(0)
	pieces := 3001 + r.Intn(3000)
	for n := 0; n < pieces; n++ {
		if r.Intn(8) == 0 {
			at += 4096 * uint64(1+r.Intn(3))
		}
		off := uint64(r.Intn(secs))
		ln := 1 + uint64(r.Intn(int(secs-off)))%2
		e := ExtentV{Type: 1, Disk: disk, DiskNum: secs * 4096, Off: off * 4096, Num: ln * 4096, RAM: secs * 4096}
		fs.set(o, Key{ino, tExtentData, at}, encExtent(e, fs.Gen), e)
		at += ln * 4096
	}
	iv.Size = at - uint64(r.Intn(4096))
	g.setInode(o, ino, iv)
	// One with a large extent, read from two places
	ino = add(top, "large", ftReg)
	iv = g.attrs(sIFREG)
	n := uint64(9<<20) + uint64(r.Intn(2048))*4096
	if o := fs.Size; o > 1<<31 {
		n = uint64(33<<20) + uint64(r.Intn(2048))*4096
	}
	disk = fs.allocData(n)
	e := ExtentV{Type: 1, Disk: disk, DiskNum: n, Num: n, RAM: n}
	fs.set(o, Key{ino, tExtentData, 0}, encExtent(e, fs.Gen), e)
	skip := uint64(1+r.Intn(100)) * 4096
	e = ExtentV{Type: 1, Disk: disk, DiskNum: n, Off: skip, Num: n - skip, RAM: n}
	fs.set(o, Key{ino, tExtentData, n}, encExtent(e, fs.Gen), e)
	iv.Size = 2*n - skip - uint64(r.Intn(4096))
	g.setInode(o, ino, iv)
	// And one with many extended attributes
	ino = add(top, "attributes", ftReg)
	g.setInode(o, ino, g.attrs(sIFREG))
	for n := 200 + r.Intn(200); n > 0; n-- {
		p := make([]byte, r.Intn(60))
		r.Read(p)
		x := EntryV{Name: fmt.Sprintf("user.%d.%s", n, randName(r, 1+r.Intn(20))), Type: ftXattr, Payload: p}
		k := Key{ino, tXattr, uint64(refNameHash([]byte(x.Name)))}
		if fs.get(o, k) == nil {
			fs.set(o, k, encEntries([]EntryV{x}, fs.Gen), []EntryV{x})
		}
	}
}

// mutate changes existing objects in ways that leave older versions on disk.
func (g *genState) mutate() {
	r, fs := g.r, g.fs
	n := 2 + r.Intn(6)
	for i := 0; i < n; i++ {
		switch r.Intn(6) {
		case 0: // attributes of a file
			if len(g.files) > 0 {
				f := g.files[r.Intn(len(g.files))]
				if it := fs.get(f.owner, Key{f.ino, tInodeItem, 0}); it != nil {
					v := g.attrs(sIFREG)
					v.Size = it.v.(InodeV).Size
					g.setInode(f.owner, f.ino, v)
				}
			}
		case 1: // rewrite extents in place
			if len(g.files) > 0 {
				f := g.files[r.Intn(len(g.files))]
				var keys []Key
				for k := range fs.trees[f.owner] {
					if k.Obj == f.ino && k.Type == tExtentData {
						keys = append(keys, k)
					}
				}
				sort.Slice(keys, func(i, j int) bool { return keys[i].Off < keys[j].Off })
				for _, k := range keys {
					e := fs.get(f.owner, k).v.(ExtentV)
					if e.Type == exInline || e.Compr != 0 || r.Intn(2) == 0 || e.Num > 1<<20 {
						continue
					}
					e = ExtentV{Type: exReg, RAM: e.Num, Num: e.Num, DiskNum: e.Num, Disk: fs.allocData(e.Num)}
					fs.set(f.owner, k, encExtent(e, fs.Gen), e)
				}
			}
		case 2: // delete
			g.unlinkSome(g.dirs[r.Intn(len(g.dirs))])
		case 3: // rename
			if g.o.noRename {
				continue
			}
			d := g.dirs[r.Intn(len(g.dirs))]
			if e, ok := g.unlinkSome(d); ok {
				e.Name = g.name()
				g.link(d, e)
			}
		case 4: // recreate a deleted name as something else
			d := g.dirs[r.Intn(len(g.dirs))]
			if e, ok := g.unlinkSome(d); ok && !e.IsSub() && e.Type != ftDir {
				ino := g.newIno(d.owner)
				if g.link(d, EntryV{Name: e.Name, Type: ftReg, Loc: Key{ino, tInodeItem, 0}}) {
					g.mkFile(d.owner, ino)
					g.files = append(g.files, dirRef{d.owner, ino})
				}
			}
		case 5: // attributes of a directory
			d := g.dirs[r.Intn(len(g.dirs))]
			g.setInode(d.owner, d.ino, g.attrs(sIFDIR))
		}
	}
}

// describe summarises a generated image for evidence.
func (fs *FS) describe() string {
	items := 0
	for _, l := range fs.Log {
		items += len(l.Items)
	}
	return fmt.Sprintf("bs=%d size=%dMiB leaves=%d items=%d gen..%d chunks=%d", fs.BS, fs.Size>>20, len(fs.Log), items, fs.Gen, len(fs.chunks))
}
