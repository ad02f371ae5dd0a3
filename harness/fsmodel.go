package main

// Independent model of a BTRFS file system and writer of disk images. Nothing
// in this file uses the code under test.

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand"
	"os"
	"sort"
)

type UUID [16]byte

func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:16])
}

func randUUID(r *rand.Rand) UUID {
	var u UUID
	r.Read(u[:])
	u[0] |= 1
	u[15] &= 0x7f
	return u
}

// Key in the order the index sorts by.
type Key struct {
	Obj  uint64
	Type uint8
	Off  uint64
}

func (k Key) less(o Key) bool {
	if k.Type != o.Type {
		return k.Type < o.Type
	}
	if k.Obj != o.Obj {
		return k.Obj < o.Obj
	}
	return k.Off < o.Off
}

// treeLess is BTRFS's own order (object id first).
func (k Key) treeLess(o Key) bool {
	if k.Obj != o.Obj {
		return k.Obj < o.Obj
	}
	if k.Type != o.Type {
		return k.Type < o.Type
	}
	return k.Off < o.Off
}

func (k Key) String() string { return fmt.Sprintf("(%d %d %d)", k.Obj, k.Type, k.Off) }

const (
	tInodeItem   = 1
	tInodeRef    = 12
	tXattr       = 24
	tOrphan      = 48
	tDirItem     = 84
	tDirIndex    = 96
	tExtentData  = 108
	tExtentCsum  = 128
	tRootItem    = 132
	tRootBackref = 144
	tRootRef     = 156
	tExtentItem  = 168
	tMetaItem    = 169
	tBlockGroup  = 192
	tDevExtent   = 204
	tDevItem     = 216
	tChunkItem   = 228

	oRoot   = 1
	oExtent = 2
	oChunk  = 3
	oDev    = 4
	oFS     = 5
	oCsum   = 7

	ftUnknown = 0
	ftReg     = 1
	ftDir     = 2
	ftChr     = 3
	ftBlk     = 4
	ftFifo    = 5
	ftSock    = 6
	ftSymlink = 7
	ftXattr   = 8

	superOff1 = 0x10000
	superOff2 = 0x4000000
	superOff3 = 0x4000000000

	leafHdr = 101
	itemHdr = 25
)

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// refNameHash computes btrfs_name_hash bit by bit: crc32c with seed ~1 and no
// final inversion.
func refNameHash(name []byte) uint32 {
	crc := uint32(0xFFFFFFFE)
	for _, b := range name {
		crc ^= uint32(b)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0x82F63B78
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

func le16(b []byte, v uint16) { binary.LittleEndian.PutUint16(b, v) }
func le32(b []byte, v uint32) { binary.LittleEndian.PutUint32(b, v) }
func le64(b []byte, v uint64) { binary.LittleEndian.PutUint64(b, v) }

func encKey(b []byte, k Key) {
	le64(b, k.Obj)
	b[8] = k.Type
	le64(b[9:], k.Off)
}

type TS struct {
	Sec  int64
	Nsec uint32
}

// Values the items encode.
type InodeV struct {
	Gen, Size, Nbytes   uint64
	Nlink, UID, GID     uint32
	Mode                uint32
	Rdev                uint64
	Atime, Ctime, Mtime TS
	Otime               TS
	Flags, Seq, TransID uint64
}

func encInode(v InodeV) []byte {
	b := make([]byte, 160)
	le64(b[0:], v.Gen)
	le64(b[8:], v.TransID)
	le64(b[16:], v.Size)
	le64(b[24:], v.Nbytes)
	le32(b[40:], v.Nlink)
	le32(b[44:], v.UID)
	le32(b[48:], v.GID)
	le32(b[52:], v.Mode)
	le64(b[56:], v.Rdev)
	le64(b[64:], v.Flags)
	le64(b[72:], v.Seq)
	for i, t := range []TS{v.Atime, v.Ctime, v.Mtime, v.Otime} {
		le64(b[112+12*i:], uint64(t.Sec))
		le32(b[112+12*i+8:], t.Nsec)
	}
	return b
}

type EntryV struct {
	Name    string
	Type    uint8
	Loc     Key // Type tInodeItem or tRootItem
	Payload []byte
}

func (e EntryV) IsSub() bool { return e.Loc.Type == tRootItem }

// target returns the tree and inode an entry of a directory of owner names.
func (e EntryV) target(owner uint64) (uint64, uint64) {
	if e.IsSub() {
		return e.Loc.Obj, 256
	}
	return owner, e.Loc.Obj
}

func encEntries(es []EntryV, trans uint64) []byte {
	var out []byte
	for _, e := range es {
		b := make([]byte, 30)
		encKey(b, e.Loc)
		le64(b[17:], trans)
		le16(b[25:], uint16(len(e.Payload)))
		le16(b[27:], uint16(len(e.Name)))
		b[29] = e.Type
		out = append(append(append(out, b...), e.Name...), e.Payload...)
	}
	return out
}

const (
	exInline   = 0
	exReg      = 1
	exPrealloc = 2
)

type ExtentV struct {
	Type     uint8
	Compr    uint8
	Encr     uint8
	Other    uint16
	Inline   []byte
	RAM      uint64
	Disk     uint64 // 0 = hole
	DiskNum  uint64
	Off, Num uint64
}

func encExtent(e ExtentV, gen uint64) []byte {
	if e.Type == exInline {
		b := make([]byte, 21+len(e.Inline))
		le64(b, gen)
		le64(b[8:], e.RAM)
		b[16], b[17], b[20] = e.Compr, e.Encr, exInline
		le16(b[18:], e.Other)
		copy(b[21:], e.Inline)
		return b
	}
	b := make([]byte, 53)
	le64(b, gen)
	le64(b[8:], e.RAM)
	b[16], b[17], b[20] = e.Compr, e.Encr, e.Type
	le16(b[18:], e.Other)
	le64(b[21:], e.Disk)
	le64(b[29:], e.DiskNum)
	le64(b[37:], e.Off)
	le64(b[45:], e.Num)
	return b
}

func (e ExtentV) length() uint64 {
	if e.Type == exInline {
		return e.RAM
	}
	return e.Num
}

type StripeV struct{ Dev, Off uint64 }
type ChunkV struct {
	Len     uint64
	Type    uint64
	Stripes []StripeV
}

func encChunk(c ChunkV) []byte {
	b := make([]byte, 48+32*len(c.Stripes))
	le64(b[0:], c.Len)
	le64(b[8:], 2)
	le64(b[16:], 65536)
	le64(b[24:], c.Type)
	le32(b[32:], 65536)
	le32(b[36:], 65536)
	le32(b[40:], 4096)
	le16(b[44:], uint16(len(c.Stripes)))
	le16(b[46:], 1)
	for i, s := range c.Stripes {
		le64(b[48+32*i:], s.Dev)
		le64(b[48+32*i+8:], s.Off)
		for j := 0; j < 16; j++ {
			b[48+32*i+16+j] = byte(0xD0 + j)
		}
	}
	return b
}

// Rec is one recorded version of one item.
type Rec struct {
	Owner uint64
	Key   Key
	Gen   uint64
	Data  []byte
	V     any
}

type curItem struct {
	data  []byte
	v     any
	dirty bool
}

// FS is the model file system together with everything ever written of it.
type FS struct {
	r    *rand.Rand
	FSID UUID
	CTID UUID
	BS   uint64
	Size uint64 // image size
	Gen  uint64

	trees map[uint64]map[Key]*curItem
	Log   []Leaf // leaves as written

	// physical space, in units of 64 KiB regions
	regionUsed  []bool
	metaSlots   []uint64 // free physical leaf slots
	chunks      map[uint64]ChunkV
	dataFree    []span // free logical data space
	nextLog     uint64
	patSeed     uint64
	sparse      bool   // most of the data is zero
	writes      []span // physical ranges to be filled with the pattern
	nextIno     map[uint64]uint64
	nextSub     uint64
	dirIdx      map[[2]uint64]uint64
	leafPackMax int // most items in a leaf, 0 = as many as fit
	interleave  bool
	LogRoot     uint64
	usedN       int // leaves whose keys customLeaf knows
	big         bool
}

type span struct{ off, n uint64 }

// Leaf is one metadata leaf on disk.
type Leaf struct {
	Phys  uint64
	Owner uint64
	Gen   uint64
	Items []Rec
	Block []byte
}

const region = 65536

func newFS(r *rand.Rand, bs, size uint64) *FS {
	fs := &FS{r: r, FSID: randUUID(r), CTID: randUUID(r), BS: bs, Size: size, Gen: 3 + uint64(r.Intn(50)),
		trees: map[uint64]map[Key]*curItem{}, chunks: map[uint64]ChunkV{}, patSeed: r.Uint64(),
		nextIno: map[uint64]uint64{}, nextSub: 256, dirIdx: map[[2]uint64]uint64{}}
	fs.regionUsed = make([]bool, size/region)
	for i := range fs.regionUsed {
		// Keep away from the start up to behind the primary superblock and
		// from the superblock copies.
		if i < 4 || i >= superOff2/region-1 && i <= superOff2/region+1 || i == superOff3/region || i == len(fs.regionUsed)-1 {
			fs.regionUsed[i] = true
		}
	}
	fs.nextLog = 1<<20 + uint64(r.Intn(64))*region*16
	if r.Intn(3) == 0 {
		fs.big = true
		// An old and large file system: numbers around and beyond 32 bits
		fs.nextLog = []uint64{1<<31 - 8*region, 1<<32 - 16*region, 1<<41 + 5*region, 1<<55 + 3*region}[r.Intn(4)]
		fs.Gen = []uint64{fs.Gen, 1<<16 - 9, 1<<32 - 7, 1<<40 + 1, 1<<63 - 9}[r.Intn(5)]
		fs.nextSub = []uint64{256, 1<<16 - 2, 1<<32 - 1, 1 << 32, 1<<47 + 256}[r.Intn(5)]
	}
	return fs
}

// minImageSize is the smallest size the tool accepts.
func minImageSize(bs uint64) uint64 { return superOff2 + 100*bs }

// takeRegions finds n free regions in a row at a random place.
func (fs *FS) takeRegions(n int) uint64 {
	for try := 0; try < 10000; try++ {
		s := fs.r.Intn(len(fs.regionUsed) - n)
		ok := true
		for i := s; i < s+n; i++ {
			if fs.regionUsed[i] {
				ok = false
				break
			}
		}
		if ok {
			for i := s; i < s+n; i++ {
				fs.regionUsed[i] = true
			}
			return uint64(s) * region
		}
	}
	// Full: grow the image
	if fs.Size > 1<<30 && !fs.sparse {
		panic("harness: image full")
	}
	grow := make([]bool, 256+n)
	grow[len(grow)-1] = true
	fs.regionUsed = append(fs.regionUsed, grow...)
	fs.Size += uint64(len(grow)) * region
	return fs.takeRegions(n)
}

// addChunk maps n regions of new logical space.
func (fs *FS) addChunk(n int, typ uint64) (logical uint64) {
	phys := fs.takeRegions(n)
	logical = fs.nextLog
	fs.nextLog += uint64(n) * region
	if fs.r.Intn(3) == 0 {
		fs.nextLog += uint64(1+fs.r.Intn(20)) * region // a gap in logical space
	}
	c := ChunkV{Len: uint64(n) * region, Type: typ, Stripes: []StripeV{{1, phys}}}
	if fs.r.Intn(4) == 0 { // DUP: the second copy is elsewhere
		c.Stripes = append(c.Stripes, StripeV{1, 0x7000000000 + phys})
	}
	fs.chunks[logical] = c
	fs.set(oChunk, Key{256, tChunkItem, logical}, encChunk(c), c)
	return
}

func (fs *FS) physOf(logical uint64) (uint64, bool) {
	for l, c := range fs.chunks {
		if logical >= l && logical-l < c.Len {
			return c.Stripes[0].Off + logical - l, true
		}
	}
	return 0, false
}

// allocData allocates n bytes (rounded to sectors) of logical data space in
// one chunk and schedules its bytes to be written.
func (fs *FS) allocData(n uint64) uint64 {
	n = (n + 4095) &^ 4095
	for i := range fs.dataFree {
		s := &fs.dataFree[i]
		if s.n >= n && (fs.r.Intn(2) == 0 || i == len(fs.dataFree)-1) {
			l := s.off
			s.off += n
			s.n -= n
			p, _ := fs.physOf(l)
			fs.writes = append(fs.writes, span{p, n})
			return l
		}
	}
	regs := int((n+region-1)/region) + fs.r.Intn(4)
	l := fs.addChunk(regs, 1)
	fs.dataFree = append(fs.dataFree, span{l, uint64(regs) * region})
	return fs.allocData(n)
}

func (fs *FS) set(owner uint64, k Key, data []byte, v any) {
	t := fs.trees[owner]
	if t == nil {
		t = map[Key]*curItem{}
		fs.trees[owner] = t
	}
	t[k] = &curItem{data, v, true}
}

func (fs *FS) del(owner uint64, k Key) {
	delete(fs.trees[owner], k)
}

func (fs *FS) get(owner uint64, k Key) *curItem { return fs.trees[owner][k] }

// pat is the content of the image's data area at physical address p.
func (fs *FS) pat(p uint64) byte {
	if fs.sparse && fs.zero(p) {
		return 0
	}
	x := fs.patSeed + (p>>3)*0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	x ^= x >> 31
	return byte(x >> (8 * (p & 7)))
}

// zero tells whether the 64 KiB around p are zero.
func (fs *FS) zero(p uint64) bool {
	return (p>>16+fs.patSeed)*0x9E3779B97F4A7C15>>58 != 0
}

func (fs *FS) patBytes(p, n uint64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = fs.pat(p + uint64(i))
	}
	return b
}

func (fs *FS) slot() uint64 {
	if len(fs.metaSlots) == 0 {
		n := 4
		p := fs.takeRegions(n)
		for o := uint64(0); o < uint64(n)*region; o += fs.BS {
			fs.metaSlots = append(fs.metaSlots, p+o)
		}
		fs.r.Shuffle(len(fs.metaSlots), func(i, j int) {
			fs.metaSlots[i], fs.metaSlots[j] = fs.metaSlots[j], fs.metaSlots[i]
		})
	}
	s := fs.metaSlots[len(fs.metaSlots)-1]
	fs.metaSlots = fs.metaSlots[:len(fs.metaSlots)-1]
	return s
}

// buildLeaf serialises items into a block.
func buildLeaf(fsid, ctid UUID, bs, owner, gen, bytenr uint64, items []Rec, r *rand.Rand) []byte {
	b := make([]byte, bs)
	copy(b[32:], fsid[:])
	le64(b[48:], bytenr)
	le64(b[56:], 1|1<<56)
	copy(b[64:], ctid[:])
	if r != nil {
		switch r.Intn(12) {
		case 0: // the block just being moved, and others of no meaning here
			le64(b[56:], 3|1<<56)
		case 1:
			le64(b[56:], r.Uint64())
		case 2:
			le64(b[48:], []uint64{0, 65536, ^uint64(0), 1 << 63, 64 << 20}[r.Intn(5)])
		case 3:
			copy(b[64:], fsid[:])
		case 4:
			copy(b[64:80], make([]byte, 16))
		}
	}
	le64(b[80:], gen)
	le64(b[88:], owner)
	le32(b[96:], uint32(len(items)))
	end := uint64(len(b)) - leafHdr
	for i, it := range items {
		end -= uint64(len(it.Data))
		h := b[leafHdr+i*itemHdr:]
		encKey(h, it.Key)
		le32(h[17:], uint32(end))
		le32(h[21:], uint32(len(it.Data)))
		copy(b[leafHdr+end:], it.Data)
	}
	if uint64(len(items))*itemHdr > end {
		panic("harness: leaf overflow")
	}
	le32(b, crc32.Checksum(b[32:], castagnoli))
	return b
}

// flush writes every tree that changed as leaves of the current generation
// and moves on to a later one. all forces every leaf to be rewritten.
func (fs *FS) flush(all bool) {
	var owners []uint64
	for o := range fs.trees {
		owners = append(owners, o)
	}
	sort.Slice(owners, func(i, j int) bool { return owners[i] < owners[j] })
	for _, o := range owners {
		t := fs.trees[o]
		var keys []Key
		for k := range t {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].treeLess(keys[j]) })
		var cur []Rec
		used := uint64(0)
		dirty := false
		emit := func() {
			if len(cur) > 0 && (dirty || all || fs.r.Intn(6) == 0) {
				fs.emitLeaf(o, cur)
			}
			cur, used, dirty = nil, 0, false
		}
		for _, k := range keys {
			it := t[k]
			need := uint64(itemHdr + len(it.data))
			if need > fs.BS-leafHdr {
				panic("harness: item too large for a leaf")
			}
			if used+need > fs.BS-leafHdr || fs.leafPackMax > 0 && len(cur) >= fs.leafPackMax || len(cur) > 3 && fs.r.Intn(40) == 0 {
				emit()
			}
			cur = append(cur, Rec{o, k, fs.Gen, it.data, it.v})
			used += need
			if it.dirty {
				dirty = true
				it.dirty = false
			}
		}
		emit()
	}
	fs.Gen += 1 + uint64(fs.r.Intn(3))*uint64(fs.r.Intn(40))
}

func (fs *FS) emitLeaf(o uint64, items []Rec) {
	p := fs.slot()
	blk := buildLeaf(fs.FSID, fs.CTID, fs.BS, o, fs.Gen, p+0x1000000, items, fs.r)
	fs.Log = append(fs.Log, Leaf{p, o, fs.Gen, items, blk})
	if o == oChunk || fs.r.Intn(8) == 0 { // DUP copy
		p2 := fs.slot()
		fs.Log = append(fs.Log, Leaf{p2, o, fs.Gen, items, blk})
	}
}

// addNoise adds blocks that must not contribute anything.
type noiseBlk struct {
	Phys uint64
	Kind string
	Blk  []byte
}

func (fs *FS) noise(n int) []noiseBlk {
	var out []noiseBlk
	for i := 0; i < n; i++ {
		p := fs.slot()
		b := make([]byte, fs.BS)
		kind := ""
		other := randUUID(fs.r)
		src := fs.Log[fs.r.Intn(len(fs.Log))]
		switch fs.r.Intn(9) {
		case 0: // leaf of another file system
			kind = "foreign leaf"
			b = buildLeaf(other, fs.CTID, fs.BS, src.Owner, src.Gen+5, p, src.Items, fs.r)
		case 1:
			kind = "foreign leaf, id differs in one bit"
			u := fs.FSID
			u[fs.r.Intn(16)] ^= 1 << fs.r.Intn(8)
			b = buildLeaf(u, fs.CTID, fs.BS, src.Owner, src.Gen+5, p, src.Items, fs.r)
		case 2:
			kind = "interior node"
			copy(b, src.Block)
			b[100] = byte(1 + fs.r.Intn(7))
			if fs.r.Intn(2) == 0 {
				b[100] = 1 << fs.r.Intn(8)
			}
			le64(b[80:], src.Gen+7)
		case 3:
			kind = "empty leaf"
			copy(b, src.Block)
			le32(b[96:], 0)
			le64(b[80:], src.Gen+7)
		case 4:
			kind = "random bytes"
			fs.r.Read(b)
		case 5:
			kind = "all ones"
			for j := range b {
				b[j] = 0xff
			}
		case 6:
			kind = "misaligned leaf"
			if fs.BS > 4096 {
				blk := src.Block
				copy(b[512:], blk[:fs.BS-512])
			}
		case 7:
			kind = "level 255 node"
			copy(b, src.Block)
			b[100] = 0xff
			le64(b[80:], src.Gen+9)
		case 8:
			kind = "zero id leaf"
			b = buildLeaf(UUID{}, fs.CTID, fs.BS, src.Owner, src.Gen+5, p, src.Items, fs.r)
		}
		out = append(out, noiseBlk{p, kind, b})
	}
	return out
}

// superBlock is a superblock copy for offset off.
func (fs *FS) superBlock(off uint64) []byte {
	b := make([]byte, 4096)
	copy(b[32:], fs.FSID[:])
	le64(b[48:], off)
	le64(b[56:], 1)
	copy(b[64:], "_BHRfS_M")
	le64(b[72:], fs.Gen)
	le64(b[80:], 0x1d00000)
	le64(b[88:], 0x1500000)
	le64(b[96:], fs.LogRoot)
	le64(b[112:], fs.Size)
	le64(b[120:], fs.Size/2)
	le64(b[128:], 6)
	le64(b[136:], 1)
	le32(b[144:], 4096)
	le32(b[148:], uint32(fs.BS))
	le32(b[152:], uint32(fs.BS))
	le32(b[156:], 4096)
	for i := 299; i < 555; i++ {
		b[i] = 0
	}
	copy(b[299:], "verif")
	// A system chunk array with plausible bytes
	encKey(b[811:], Key{256, tChunkItem, 0x1500000})
	copy(b[811+17:], encChunk(ChunkV{Len: 8 << 20, Type: 2, Stripes: []StripeV{{1, 0x1500000}}}))
	le32(b, crc32.Checksum(b[32:], castagnoli))
	return b
}

// Image layout options.
type imgOpts struct {
	noise    []noiseBlk
	leaves   []int // indexes into Log, nil = all
	tail     []byte
	noSuper  bool
	size     uint64 // 0 = fs.Size
	skipData bool
}

// writeImage writes the disk image.
func (fs *FS) writeImage(path string, o imgOpts) {
	f, err := os.Create(path)
	must(err)
	defer f.Close()
	size := fs.Size
	if o.size != 0 {
		size = o.size
	}
	must(f.Truncate(int64(size)))
	wr := func(b []byte, off uint64) {
		if off >= size {
			return
		}
		if off+uint64(len(b)) > size {
			b = b[:size-off]
		}
		_, err := f.WriteAt(b, int64(off))
		must(err)
	}
	if !o.noSuper {
		for _, off := range []uint64{superOff1, superOff2, superOff3} {
			if off+4096 <= size {
				wr(fs.superBlock(off), off)
			}
		}
	}
	if !o.skipData {
		for _, s := range fs.writes {
			for off := s.off; fs.sparse && s.n > 0; {
				n := min(s.n, 65536-off%65536)
				if !fs.zero(off) {
					wr(fs.patBytes(off, n), off)
				}
				off += n
				s.n -= n
			}
			wr(fs.patBytes(s.off, s.n), s.off)
		}
	}
	idx := o.leaves
	if idx == nil {
		for i := range fs.Log {
			idx = append(idx, i)
		}
	}
	for _, i := range idx {
		wr(fs.Log[i].Block, fs.Log[i].Phys)
	}
	for _, n := range o.noise {
		wr(n.Blk, n.Phys)
	}
	if len(o.tail) > 0 {
		wr(o.tail, size-size%fs.BS)
	}
}

type recKey struct {
	Owner uint64
	Key   Key
	Gen   uint64
}

// records returns everything recon must record of the given leaves.
func (fs *FS) records(leaves []int) map[recKey]Rec {
	out := map[recKey]Rec{}
	if leaves == nil {
		for i := range fs.Log {
			leaves = append(leaves, i)
		}
	}
	for _, i := range leaves {
		for _, it := range fs.Log[i].Items {
			out[recKey{it.Owner, it.Key, it.Gen}] = it
		}
	}
	return out
}

// View is what a reader that prefers the newest version of each key sees.
type View struct {
	fs   *FS
	item map[uint64]map[Key]Rec
	// keys per owner and (type, object), sorted
	byObj map[uint64]map[[2]uint64][]Key
}

func (fs *FS) view(recs map[recKey]Rec) *View {
	v := &View{fs: fs, item: map[uint64]map[Key]Rec{}, byObj: map[uint64]map[[2]uint64][]Key{}}
	for rk, rec := range recs {
		m := v.item[rk.Owner]
		if m == nil {
			m = map[Key]Rec{}
			v.item[rk.Owner] = m
		}
		if old, ok := m[rk.Key]; !ok || rk.Gen > old.Gen {
			m[rk.Key] = rec
		}
	}
	for o, m := range v.item {
		b := map[[2]uint64][]Key{}
		for k := range m {
			x := [2]uint64{uint64(k.Type), k.Obj}
			b[x] = append(b[x], k)
		}
		for _, ks := range b {
			sort.Slice(ks, func(i, j int) bool { return ks[i].Off < ks[j].Off })
		}
		v.byObj[o] = b
	}
	return v
}

func (v *View) all(owner uint64, t uint8, obj uint64) []Rec {
	var out []Rec
	for _, k := range v.byObj[owner][[2]uint64{uint64(t), obj}] {
		out = append(out, v.item[owner][k])
	}
	return out
}

func (v *View) inode(owner, ino uint64) *InodeV {
	if r, ok := v.item[owner][Key{ino, tInodeItem, 0}]; ok {
		i := r.V.(InodeV)
		return &i
	}
	return nil
}

func (v *View) entries(owner, ino uint64) []EntryV {
	var out []EntryV
	for _, r := range v.all(owner, tDirItem, ino) {
		out = append(out, r.V.([]EntryV)...)
	}
	return out
}

func (v *View) xattrs(owner, ino uint64) []EntryV {
	var out []EntryV
	for _, r := range v.all(owner, tXattr, ino) {
		out = append(out, r.V.([]EntryV)...)
	}
	return out
}

type extAt struct {
	At uint64
	ExtentV
}

func (v *View) extents(owner, ino uint64) []extAt {
	var out []extAt
	for _, r := range v.all(owner, tExtentData, ino) {
		out = append(out, extAt{r.Key.Off, r.V.(ExtentV)})
	}
	return out
}

// subvols returns the ids of all recorded subvolumes.
func (v *View) subvols() []uint64 {
	var out []uint64
	for k := range v.item[oRoot] {
		if k.Type == tRootItem && k.Obj >= 256 && k.Obj <= ^uint64(255) {
			out = append(out, k.Obj)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	d := out[:0]
	for i, x := range out {
		if i == 0 || x != out[i-1] {
			d = append(d, x)
		}
	}
	return d
}

func (v *View) chunkPhys(logical uint64) (dev, phys uint64, ok bool) {
	for k, r := range v.item[oChunk] {
		if k.Type != tChunkItem {
			continue
		}
		c := r.V.(ChunkV)
		if len(c.Stripes) > 0 && logical >= k.Off && logical-k.Off < c.Len {
			return c.Stripes[0].Dev, c.Stripes[0].Off + logical - k.Off, true
		}
	}
	return 0, 0, false
}

// seg is a piece of a file: zeros (phys==0 and inline==nil), inline bytes or
// image bytes.
type seg struct {
	at, n  uint64
	inline []byte
	phys   uint64
	bad    string // why the bytes cannot be had
}

// segs returns the non-zero pieces of a file below size.
func (v *View) segs(owner, ino uint64) (size uint64, out []seg) {
	iv := v.inode(owner, ino)
	exts := v.extents(owner, ino)
	if iv != nil {
		size = iv.Size
	} else {
		for _, e := range exts {
			if e.At+e.length() > size {
				size = e.At + e.length()
			}
		}
	}
	for _, e := range exts {
		if e.At >= size {
			continue
		}
		n := e.length()
		if n > size-e.At {
			n = size - e.At
		}
		if n == 0 {
			continue
		}
		s := seg{at: e.At, n: n}
		switch {
		case e.Type != exInline && (e.Disk == 0 || e.Type == exPrealloc):
			continue
		case e.Compr != 0 || e.Encr != 0 || e.Other != 0:
			s.bad = "encoded"
		case e.Type == exInline:
			s.inline = e.Inline
			if n > uint64(len(e.Inline)) {
				n = uint64(len(e.Inline))
			}
			s.inline, s.n = e.Inline[:n], n
		default:
			_, p, ok := v.chunkPhys(e.Disk)
			if !ok {
				s.bad = "no chunk"
			}
			s.phys = p + e.Off
		}
		out = append(out, s)
	}
	return
}

// read returns the bytes [off, off+n) of a file, cut at its size. bad tells
// that some byte in the range cannot be had.
func (v *View) read(owner, ino, off, n uint64) (b []byte, bad bool) {
	size, ss := v.segs(owner, ino)
	if off >= size {
		return nil, false
	}
	if n > size-off {
		n = size - off
	}
	b = make([]byte, n)
	for _, s := range ss {
		lo, hi := s.at, s.at+s.n
		if lo < off {
			lo = off
		}
		if hi > off+n {
			hi = off + n
		}
		if lo >= hi {
			continue
		}
		if s.bad != "" {
			bad = true
			continue
		}
		for x := lo; x < hi; x++ {
			if s.inline != nil {
				b[x-off] = s.inline[x-s.at]
			} else {
				b[x-off] = v.fs.pat(s.phys + x - s.at)
			}
		}
	}
	return
}

func (v *View) linkTarget(owner, ino uint64) (string, bool) {
	for _, e := range v.extents(owner, ino) {
		if e.At == 0 && e.Type == exInline && e.Compr == 0 {
			return string(e.Inline), true
		}
		if iv := v.inode(owner, ino); e.At == 0 && e.Type == exReg && e.Compr == 0 && e.Disk != 0 && iv != nil {
			if _, p, ok := v.chunkPhys(e.Disk); ok {
				return string(v.fs.patBytes(p+e.Off, iv.Size)), true
			}
		}
	}
	return "", false
}

// Node is one object reached by walking the view.
type Node struct {
	Path  string // without leading slash
	Owner uint64 // tree of the object
	Ino   uint64
	E     EntryV
	Depth int
}

// walk visits every entry reachable from (owner, ino), each directory once.
func (v *View) walk(owner, ino uint64, prefix string, seen map[[2]uint64]bool, fn func(n Node)) {
	if seen[[2]uint64{owner, ino}] {
		return
	}
	seen[[2]uint64{owner, ino}] = true
	for _, e := range v.entries(owner, ino) {
		o, i := e.target(owner)
		p := prefix + e.Name
		fn(Node{Path: p, Owner: o, Ino: i, E: e})
		if e.Type == ftDir {
			v.walk(o, i, p+"/", seen, fn)
		}
	}
}

func crcOf(b []byte) uint32 { return crc32.Checksum(b, castagnoli) }
