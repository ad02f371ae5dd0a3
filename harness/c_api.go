package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/coding"
	"blichmann.eu/code/btrfscue/pkg/ioutil"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
)

func init() {
	checks["C22"] = checkDef{fn: checkC22, level: "exploration", min: 50000,
		rule: "every accessor of every structure on random and extreme contents of exactly the structure's length (no spare capacity), compared with the offset and width of the BTRFS disk format; names, payloads, leaves and stripes of every length class; non-trivial: a field whose bytes are neither all zero nor all ones"}
	checks["C23"] = checkDef{fn: checkC23, level: "exploration", min: 50000,
		rule: "random ids and texts (canonical, dashes anywhere, mixed case, wrong lengths, foreign characters) against a reference parser; non-trivial: texts that differ from the canonical form"}
	checks["C25"] = checkDef{fn: checkC25, level: "fault_enumeration", min: 5000,
		rule: "readers that deliver every count from nothing to the whole block with every kind of error, short and split reads, and real files at and behind their end; the reader logs what it delivered and the verdict is compared with the log; non-trivial: an incomplete delivery or an error next to a complete one"}
	checks["C26"] = checkDef{fn: checkC26, level: "exploration", min: 3000,
		rule: "byte strings of many lengths and distributions against a compensated defining sum, and the same strings permuted, relabelled and repeated; non-trivial: at least two byte values"}
	checks["C31"] = checkDef{fn: checkC31, level: "exploration", min: 50000,
		rule: "names of every length up to 300 with arbitrary bytes against a bit-by-bit CRC-32C and known values of real file systems; non-trivial: non-empty names"}
	checks["C32"] = checkDef{fn: checkC32, level: "exploration", min: 50000,
		rule: "random sequences of reads, seeks and rewinds on buffers with and without spare capacity against a model; non-trivial: sequences that reach the end or overrun"}
	checks["C27"] = checkDef{fn: checkC27, level: "fault_enumeration", min: 800,
		rule: "indexes opened with every combination of matching and differing id, block size, version and mode, and damaged, foreign, empty and missing files; file bytes, directory listing and lock state observed after every refusal; non-trivial: a refused open"}
	checks["C28"] = checkDef{fn: checkC28, level: "fault_enumeration", min: 20000,
		rule: "random histories of inserts, overwrites, queries, commits, raw transactions that succeed or fail, reopenings and crashes (the file as it is at that moment, opened elsewhere) against a map model, some with more inserts than one automatic commit holds; non-trivial: states after at least one commit"}
}

type field struct {
	name string
	off  int
	w    int // 1, 2, 4, 8, 12 time, 16 uuid, 17 key, 32 csum, 320 = 4 uint64, 640 = 8 uint64
	get  func(b []byte) any
}

type structure struct {
	name string
	size int
	f    []field
}

var structures = []structure{
	{"DevExtent", 48, []field{
		{"ChunkTree", 0, 8, func(b []byte) any { return btrfs.DevExtent(b).ChunkTree() }},
		{"ChunkObjectID", 8, 8, func(b []byte) any { return btrfs.DevExtent(b).ChunkObjectID() }},
		{"ChunkOffset", 16, 8, func(b []byte) any { return btrfs.DevExtent(b).ChunkOffset() }},
		{"Length", 24, 8, func(b []byte) any { return btrfs.DevExtent(b).Length() }},
		{"ChunkTreeUUID", 32, 16, func(b []byte) any { return btrfs.DevExtent(b).ChunkTreeUUID() }},
	}},
	{"DevItem", 98, []field{
		{"DevID", 0, 8, func(b []byte) any { return btrfs.DevItem(b).DevID() }},
		{"TotalBytes", 8, 8, func(b []byte) any { return btrfs.DevItem(b).TotalBytes() }},
		{"BytesUsed", 16, 8, func(b []byte) any { return btrfs.DevItem(b).BytesUsed() }},
		{"IOAlign", 24, 4, func(b []byte) any { return btrfs.DevItem(b).IOAlign() }},
		{"IOWidth", 28, 4, func(b []byte) any { return btrfs.DevItem(b).IOWidth() }},
		{"SectorSize", 32, 4, func(b []byte) any { return btrfs.DevItem(b).SectorSize() }},
		{"Type", 36, 8, func(b []byte) any { return btrfs.DevItem(b).Type() }},
		{"Generation", 44, 8, func(b []byte) any { return btrfs.DevItem(b).Generation() }},
		{"StartOffset", 52, 8, func(b []byte) any { return btrfs.DevItem(b).StartOffset() }},
		{"DevGroup", 60, 4, func(b []byte) any { return btrfs.DevItem(b).DevGroup() }},
		{"SeekSpeed", 64, 1, func(b []byte) any { return btrfs.DevItem(b).SeekSpeed() }},
		{"Bandwidth", 65, 1, func(b []byte) any { return btrfs.DevItem(b).Bandwidth() }},
		{"UUID", 66, 16, func(b []byte) any { return btrfs.DevItem(b).UUID() }},
		{"FSID", 82, 16, func(b []byte) any { return btrfs.DevItem(b).FSID() }},
	}},
	{"Stripe", 32, []field{
		{"DevID", 0, 8, func(b []byte) any { return btrfs.Stripe(b).DevID() }},
		{"Offset", 8, 8, func(b []byte) any { return btrfs.Stripe(b).Offset() }},
		{"DevUUID", 16, 16, func(b []byte) any { return btrfs.Stripe(b).DevUUID() }},
	}},
	{"Chunk", 80, []field{
		{"Length", 0, 8, func(b []byte) any { return btrfs.Chunk(b).Length() }},
		{"Owner", 8, 8, func(b []byte) any { return btrfs.Chunk(b).Owner() }},
		{"StripeLen", 16, 8, func(b []byte) any { return btrfs.Chunk(b).StripeLen() }},
		{"Type", 24, 8, func(b []byte) any { return btrfs.Chunk(b).Type() }},
		{"IOAlign", 32, 4, func(b []byte) any { return btrfs.Chunk(b).IOAlign() }},
		{"IOWidth", 36, 4, func(b []byte) any { return btrfs.Chunk(b).IOWidth() }},
		{"SectorSize", 40, 4, func(b []byte) any { return btrfs.Chunk(b).SectorSize() }},
		{"NumStripes", 44, 2, func(b []byte) any { return btrfs.Chunk(b).NumStripes() }},
		{"SubStripes", 46, 2, func(b []byte) any { return btrfs.Chunk(b).SubStripes() }},
		{"Stripe(0).DevID", 48, 8, func(b []byte) any { return btrfs.Chunk(b).Stripe(0).DevID() }},
		{"Stripe(0).Offset", 56, 8, func(b []byte) any { return btrfs.Chunk(b).Stripe(0).Offset() }},
		{"Stripe(0).DevUUID", 64, 16, func(b []byte) any { return btrfs.Chunk(b).Stripe(0).DevUUID() }},
	}},
	{"InodeItem", 160, []field{
		{"Generation", 0, 8, func(b []byte) any { return btrfs.InodeItem(b).Generation() }},
		{"TransID", 8, 8, func(b []byte) any { return btrfs.InodeItem(b).TransID() }},
		{"Size", 16, 8, func(b []byte) any { return btrfs.InodeItem(b).Size() }},
		{"BlockGroup", 32, 8, func(b []byte) any { return btrfs.InodeItem(b).BlockGroup() }},
		{"Nlink", 40, 4, func(b []byte) any { return btrfs.InodeItem(b).Nlink() }},
		{"UID", 44, 4, func(b []byte) any { return btrfs.InodeItem(b).UID() }},
		{"GID", 48, 4, func(b []byte) any { return btrfs.InodeItem(b).GID() }},
		{"Mode", 52, 4, func(b []byte) any { return btrfs.InodeItem(b).Mode() }},
		{"Rdev", 56, 8, func(b []byte) any { return btrfs.InodeItem(b).Rdev() }},
		{"Flags", 64, 8, func(b []byte) any { return btrfs.InodeItem(b).Flags() }},
		{"Sequence", 72, 8, func(b []byte) any { return btrfs.InodeItem(b).Sequence() }},
		{"Reserved", 80, 320, func(b []byte) any { return btrfs.InodeItem(b).Reserved() }},
		{"Atime", 112, 12, func(b []byte) any { return btrfs.InodeItem(b).Atime() }},
		{"Ctime", 124, 12, func(b []byte) any { return btrfs.InodeItem(b).Ctime() }},
		{"Mtime", 136, 12, func(b []byte) any { return btrfs.InodeItem(b).Mtime() }},
		{"Rtime", 148, 12, func(b []byte) any { return btrfs.InodeItem(b).Rtime() }},
	}},
	{"InodeRefItem", 10, []field{
		{"Index", 0, 8, func(b []byte) any { return btrfs.InodeRefItem(b).Index() }},
		{"NameLen", 8, 2, func(b []byte) any { return btrfs.InodeRefItem(b).NameLen() }},
	}},
	{"DirItem", 30, []field{
		{"Location", 0, 17, func(b []byte) any { return btrfs.DirItem(b).Location() }},
		{"TransID", 17, 8, func(b []byte) any { return btrfs.DirItem(b).TransID() }},
		{"DataLen", 25, 2, func(b []byte) any { return btrfs.DirItem(b).DataLen() }},
		{"NameLen", 27, 2, func(b []byte) any { return btrfs.DirItem(b).NameLen() }},
		{"Type", 29, 1, func(b []byte) any { return btrfs.DirItem(b).Type() }},
	}},
	{"BlockGroupItem", 24, []field{
		{"Used", 0, 8, func(b []byte) any { return btrfs.BlockGroupItem(b).Used() }},
		{"ChunkObjectID", 8, 8, func(b []byte) any { return btrfs.BlockGroupItem(b).ChunkObjectID() }},
		{"Flags", 16, 8, func(b []byte) any { return btrfs.BlockGroupItem(b).Flags() }},
	}},
	{"FileExtentItem", 53, []field{
		{"Generation", 0, 8, func(b []byte) any { return btrfs.FileExtentItem(b).Generation() }},
		{"RAMBytes", 8, 8, func(b []byte) any { return btrfs.FileExtentItem(b).RAMBytes() }},
		{"Compression", 16, 1, func(b []byte) any { return btrfs.FileExtentItem(b).Compression() }},
		{"Encryption", 17, 1, func(b []byte) any { return btrfs.FileExtentItem(b).Encryption() }},
		{"OtherEncoding", 18, 2, func(b []byte) any { return btrfs.FileExtentItem(b).OtherEncoding() }},
		{"Type", 20, 1, func(b []byte) any { return btrfs.FileExtentItem(b).Type() }},
		{"DiskByteNr", 21, 8, func(b []byte) any { return btrfs.FileExtentItem(b).DiskByteNr() }},
		{"DiskNumBytes", 29, 8, func(b []byte) any { return btrfs.FileExtentItem(b).DiskNumBytes() }},
		{"Offset", 37, 8, func(b []byte) any { return btrfs.FileExtentItem(b).Offset() }},
		{"NumBytes", 45, 8, func(b []byte) any { return btrfs.FileExtentItem(b).NumBytes() }},
	}},
	{"FileExtentItem (inline)", 21, []field{
		{"RAMBytes", 8, 8, func(b []byte) any { return btrfs.FileExtentItem(b).RAMBytes() }},
		{"Type", 20, 1, func(b []byte) any { return btrfs.FileExtentItem(b).Type() }},
	}},
	{"CSumItem", 32, []field{
		{"CSum", 0, 32, func(b []byte) any { return btrfs.CSumItem(b).CSum() }},
	}},
	{"RootItem", 439, []field{
		{"Inode().Generation", 0, 8, func(b []byte) any { return btrfs.RootItem(b).Inode().Generation() }},
		{"Inode().Mode", 52, 4, func(b []byte) any { return btrfs.RootItem(b).Inode().Mode() }},
		{"Inode().Rtime", 148, 12, func(b []byte) any { return btrfs.RootItem(b).Inode().Rtime() }},
		{"Generation", 160, 8, func(b []byte) any { return btrfs.RootItem(b).Generation() }},
		{"RootDirID", 168, 8, func(b []byte) any { return btrfs.RootItem(b).RootDirID() }},
		{"ByteNr", 176, 8, func(b []byte) any { return btrfs.RootItem(b).ByteNr() }},
		{"ByteLimit", 184, 8, func(b []byte) any { return btrfs.RootItem(b).ByteLimit() }},
		{"BytesUsed", 192, 8, func(b []byte) any { return btrfs.RootItem(b).BytesUsed() }},
		{"LastSnapshot", 200, 8, func(b []byte) any { return btrfs.RootItem(b).LastSnapshot() }},
		{"Flags", 208, 8, func(b []byte) any { return btrfs.RootItem(b).Flags() }},
		{"Refs", 216, 4, func(b []byte) any { return btrfs.RootItem(b).Refs() }},
		{"DropProgress", 220, 17, func(b []byte) any { return btrfs.RootItem(b).DropProgress() }},
		{"DropLevel", 237, 1, func(b []byte) any { return btrfs.RootItem(b).DropLevel() }},
		{"Level", 238, 1, func(b []byte) any { return btrfs.RootItem(b).Level() }},
		{"GenerationV2", 239, 8, func(b []byte) any { return btrfs.RootItem(b).GenerationV2() }},
		{"UUID", 247, 16, func(b []byte) any { return btrfs.RootItem(b).UUID() }},
		{"ParentUUID", 263, 16, func(b []byte) any { return btrfs.RootItem(b).ParentUUID() }},
		{"ReceivedUUID", 279, 16, func(b []byte) any { return btrfs.RootItem(b).ReceivedUUID() }},
		{"CTransID", 295, 8, func(b []byte) any { return btrfs.RootItem(b).CTransID() }},
		{"OTransID", 303, 8, func(b []byte) any { return btrfs.RootItem(b).OTransID() }},
		{"STransID", 311, 8, func(b []byte) any { return btrfs.RootItem(b).STransID() }},
		{"RTransID", 319, 8, func(b []byte) any { return btrfs.RootItem(b).RTransID() }},
		{"Ctime", 327, 12, func(b []byte) any { return btrfs.RootItem(b).Ctime() }},
		{"Otime", 339, 12, func(b []byte) any { return btrfs.RootItem(b).Otime() }},
		{"Stime", 351, 12, func(b []byte) any { return btrfs.RootItem(b).Stime() }},
		{"Rtime", 363, 12, func(b []byte) any { return btrfs.RootItem(b).Rtime() }},
		{"Reserved", 375, 640, func(b []byte) any { return btrfs.RootItem(b).Reserved() }},
	}},
	{"RootRef", 18, []field{
		{"DirID", 0, 8, func(b []byte) any { return btrfs.RootRef(b).DirID() }},
		{"Sequence", 8, 8, func(b []byte) any { return btrfs.RootRef(b).Sequence() }},
		{"NameLen", 16, 2, func(b []byte) any { return btrfs.RootRef(b).NameLen() }},
	}},
	{"ExtentItem", 24, []field{
		{"Refs", 0, 8, func(b []byte) any { return btrfs.ExtentItem(b).Refs() }},
		{"Generation", 8, 8, func(b []byte) any { return btrfs.ExtentItem(b).Generation() }},
		{"Flags", 16, 8, func(b []byte) any { return btrfs.ExtentItem(b).Flags() }},
	}},
	{"Header", 101, []field{
		{"CSum", 0, 32, func(b []byte) any { return btrfs.Header(b).CSum() }},
		{"FSID", 32, 16, func(b []byte) any { return btrfs.Header(b).FSID() }},
		{"ByteNr", 48, 8, func(b []byte) any { return btrfs.Header(b).ByteNr() }},
		{"Flags", 56, 8, func(b []byte) any { return btrfs.Header(b).Flags() }},
		{"ChunkTreeUUID", 64, 16, func(b []byte) any { return btrfs.Header(b).ChunkTreeUUID() }},
		{"Generation", 80, 8, func(b []byte) any { return btrfs.Header(b).Generation() }},
		{"Owner", 88, 8, func(b []byte) any { return btrfs.Header(b).Owner() }},
		{"NrItems", 96, 4, func(b []byte) any { return btrfs.Header(b).NrItems() }},
		{"Level", 100, 1, func(b []byte) any { return btrfs.Header(b).Level() }},
	}},
	{"Item", 25, []field{
		{"Key", 0, 17, func(b []byte) any { return btrfs.Item(b).Key() }},
		{"Offset", 17, 4, func(b []byte) any { return btrfs.Item(b).Offset() }},
		{"Size", 21, 4, func(b []byte) any { return btrfs.Item(b).Size() }},
	}},
}

// want decodes a field independently.
func (f field) want(b []byte) any {
	le := func(o, n int) (v uint64) {
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[f.off+o+i])
		}
		return
	}
	switch f.w {
	case 1:
		return b[f.off]
	case 2:
		return uint16(le(0, 2))
	case 4:
		return uint32(le(0, 4))
	case 8:
		return le(0, 8)
	case 12:
		return [2]int64{int64(le(0, 8)), int64(le(8, 4))}
	case 16:
		var u [16]byte
		copy(u[:], b[f.off:])
		return u
	case 17:
		return Key{le(0, 8), b[f.off+8], le(9, 8)}
	case 32:
		var u [32]byte
		copy(u[:], b[f.off:])
		return u
	case 320:
		return [4]uint64{le(0, 8), le(8, 8), le(16, 8), le(24, 8)}
	case 640:
		var u [8]uint64
		for i := range u {
			u[i] = le(8*i, 8)
		}
		return u
	}
	panic("harness: width")
}

func normVal(v any) any {
	switch x := v.(type) {
	case uuid.UUID:
		return [16]byte(x)
	case btrfs.Key:
		return mkey(x)
	case btrfs.CSum:
		return [32]byte(x)
	}
	return v
}

func fillBytes(r *rand.Rand, b []byte) {
	switch r.Intn(6) {
	case 0:
		for i := range b {
			b[i] = 0xff
		}
	case 1:
		for i := range b {
			b[i] = 0
		}
	case 2:
		for i := range b {
			b[i] = byte(i + 1)
		}
	case 3:
		for i := range b {
			b[i] = 0x80 >> uint(r.Intn(8))
		}
	default:
		r.Read(b)
	}
}

func checkC22(c *Check) {
	r := c.rng(0)
	n := c.pick(700, 60000)
	for i := 0; i < n && !c.failed(); i++ {
		for _, s := range structures {
			b := make([]byte, s.size)
			fillBytes(r, b)
			if r.Intn(2) == 0 { // make times representable now and then
				for _, f := range s.f {
					if f.w == 12 {
						le64(b[f.off:], uint64(r.Int63n(1<<34)))
						le32(b[f.off+8:], uint32(r.Intn(1000000000)))
					}
				}
			}
			keep := append([]byte{}, b...)
			bb := b[:s.size:s.size]
			for _, f := range s.f {
				f := f
				c.guard(fmt.Sprintf("%s.%s of %x", s.name, f.name, keep), func() {
					w := f.want(keep)
					if f.w == 12 {
						x := w.([2]int64)
						if x[1] >= 1000000000 || x[0] > 1<<40 || x[0] < -(1<<40) {
							return // not a time of this format
						}
						g := f.get(bb).(time.Time)
						if g.Unix() != x[0] || int64(g.Nanosecond()) != x[1] || g.Location() != time.UTC {
							c.violated("%s.%s is %v, stored are second %d nanosecond %d; bytes %x", s.name, f.name, g, x[0], x[1], keep)
						}
					} else if g := normVal(f.get(bb)); !reflect.DeepEqual(g, w) {
						c.violated("%s.%s is %v, stored at offset %d is %v; bytes %x", s.name, f.name, g, f.off, w, keep)
					}
					c.count("evaluations", 1)
					triv := true
					wd := f.w
					if wd > 32 {
						wd /= 10
					}
					for _, x := range keep[f.off : f.off+wd] {
						if x != 0 && x != 0xff {
							triv = false
						}
					}
					if !triv {
						c.seen("case", s.name, f.name, i)
					}
				})
			}
			if !bytes.Equal(b, keep) {
				c.violated("an accessor of %s changed the structure", s.name)
			}
		}
	}
	var fl []string
	for _, s := range structures {
		for _, f := range s.f {
			fl = append(fl, s.name+"."+f.name)
		}
	}
	c.sample(map[string]any{"accessors": len(fl), "some": fl[:10]})
	// Names, payloads and derived predicates
	str := func(n int) string {
		b := make([]byte, n)
		r.Read(b)
		return string(b)
	}
	for i := 0; i < c.pick(6000, 300000) && !c.failed(); i++ {
		nl := []int{0, 1, 2, 3, 8, 100, 127, 128, 254, 255}[r.Intn(10)]
		if r.Intn(2) == 0 {
			nl = r.Intn(256)
		}
		pl := []int{0, 1, 255, 256, 257, 4096, 32767, 32768, 65535}[r.Intn(9)]
		if r.Intn(2) == 0 {
			pl = r.Intn(400)
		}
		extra := r.Intn(3) * r.Intn(50)
		name, pay := str(nl), str(pl)
		loc := Key{r.Uint64(), []uint8{tInodeItem, tRootItem, 0, 131, 133, 255}[r.Intn(6)], r.Uint64()}
		ty := uint8(r.Intn(9))
		d := encEntries([]EntryV{{Name: name, Type: ty, Loc: loc, Payload: []byte(pay)}}, r.Uint64())
		if extra > 0 {
			d = append(d, str(extra)...)
		}
		d = d[:len(d):len(d)]
		c.guard("directory entry", func() {
			x := btrfs.DirItem(d)
			if x.Name() != name || x.Data() != pay || x.IsDir() != (ty == ftDir) || x.IsSubvolume() != (loc.Type == tRootItem) {
				c.violated("directory entry with name %x, %d payload bytes, type %d, location %v: name %x, payload %d bytes (equal: %v), directory %v, subvolume %v", name, pl, ty, loc, x.Name(), len(x.Data()), x.Data() == pay, x.IsDir(), x.IsSubvolume())
			}
		})
		// Cut off within the name or the payload: what is there, no more
		cut := r.Intn(nl + pl + 1)
		if r.Intn(2) == 0 {
			cut = r.Intn(nl + 1)
		}
		c.guard("directory entry that is cut off", func() {
			x := btrfs.DirItem(d[:30+cut])
			wn, wd := name[:min(nl, cut)], pay[:max(0, cut-nl)]
			if x.Name() != wn || x.Data() != wd {
				c.violated("directory entry with a name of %d and a payload of %d bytes, cut off after %d of these: name %x, payload of %d bytes, recorded name %x", nl, pl, cut, x.Name(), len(x.Data()), name)
			}
		})
		ref := make([]byte, 10+nl+extra)
		fillBytes(r, ref)
		le16(ref[8:], uint16(nl))
		copy(ref[10:], name)
		c.guard("inode reference", func() {
			if g := btrfs.InodeRefItem(ref[:len(ref):len(ref)]).Name(); g != name {
				c.violated("inode reference with name %x gives name %x", name, g)
			}
		})
		rr := make([]byte, 18+nl+extra)
		fillBytes(r, rr)
		le16(rr[16:], uint16(nl))
		copy(rr[18:], name)
		c.guard("root reference", func() {
			if g := btrfs.RootRef(rr[:len(rr):len(rr)]).Name(); g != name {
				c.violated("root reference with name %x gives name %x", name, g)
			}
		})
		in := encExtent(ExtentV{Type: exInline, Inline: []byte(pay), RAM: uint64(pl)}, r.Uint64())
		c.guard("inline extent", func() {
			x := btrfs.FileExtentItem(in[:len(in):len(in)])
			if g := x.Data(); g != pay || !x.IsInline() {
				c.violated("inline extent with %d bytes gives %d bytes (equal: %v), inline %v", pl, len(g), g == pay, x.IsInline())
			}
		})
		c.guard("references that are cut off", func() {
			n := r.Intn(nl + 1)
			if g := btrfs.InodeRefItem(ref[:10+n]).Name(); g != name[:n] {
				c.violated("inode reference with a name of %d bytes, cut off after %d, gives name %x instead of %x", nl, n, g, name[:n])
			}
			if g := btrfs.RootRef(rr[:18+n]).Name(); g != name[:n] {
				c.violated("root reference with a name of %d bytes, cut off after %d, gives name %x instead of %x", nl, n, g, name[:n])
			}
		})
		if i%8 == 0 { // longer than a name can be
			ln := 256 + r.Intn(200)
			if r.Intn(4) == 0 {
				ln = []int{256, 4096, 32768, 65535}[r.Intn(4)]
			}
			long := str(ln)
			a := append(binary.LittleEndian.AppendUint16(make([]byte, 8), uint16(ln)), long...)
			b := append(binary.LittleEndian.AppendUint16(make([]byte, 16), uint16(ln)), long...)
			c.guard("names that are too long", func() {
				if g := btrfs.InodeRefItem(a).Name(); g != long[:255] {
					c.violated("inode reference with a name of %d bytes gives %d bytes", ln, len(g))
				}
				if g := btrfs.RootRef(b).Name(); g != long[:255] {
					c.violated("root reference with a name of %d bytes gives %d bytes", ln, len(g))
				}
				if g := btrfs.DirItem(encEntries([]EntryV{{Name: long, Type: ty, Loc: loc}}, 1)).Name(); g != long[:255] {
					c.violated("directory entry with a name of %d bytes gives %d bytes", ln, len(g))
				}
			})
			c.count("names_too_long", 3)
		}
		{ // a stored item with more behind it
			sz := r.Intn(nl + 1)
			it := make([]byte, 25+nl)
			fillBytes(r, it)
			le32(it[21:], uint32(sz))
			c.guard("item data", func() {
				if g := btrfs.Item(it).Data(); !bytes.Equal(g, it[25:25+sz]) {
					c.violated("item of size %d with %d bytes stored gives %d bytes", sz, nl, len(g))
				}
			})
			n := r.Intn(40)
			if g := btrfs.ExtentItem(it[:min(n, len(it))]).IsCompatV0(); g != (min(n, len(it)) < 24) {
				c.violated("extent item of %d bytes: old format %v", n, g)
			}
		}
		rg := encExtent(ExtentV{Type: uint8(1 + r.Intn(2)), Disk: r.Uint64()}, 1)
		if btrfs.FileExtentItem(rg).IsInline() {
			c.violated("extent of type %d is reported inline", rg[20])
		}
		// Stripes
		ns := 1 + r.Intn(20)
		if r.Intn(40) == 0 {
			ns = 1500 + r.Intn(1000)
		}
		cv := ChunkV{Len: r.Uint64(), Type: r.Uint64()}
		for k := 0; k < ns; k++ {
			cv.Stripes = append(cv.Stripes, StripeV{r.Uint64(), r.Uint64()})
		}
		cb := encChunk(cv)
		k := r.Intn(ns)
		if r.Intn(2) == 0 {
			k = ns - 1
		}
		c.guard("stripe", func() {
			s := btrfs.Chunk(cb).Stripe(uint16(k))
			if s.DevID() != cv.Stripes[k].Dev || s.Offset() != cv.Stripes[k].Off || int(btrfs.Chunk(cb).NumStripes()) != ns {
				c.violated("stripe %d of %d is (%d, %d), stored is %v", k, ns, s.DevID(), s.Offset(), cv.Stripes[k])
			}
		})
		ro := make([]byte, 439)
		le64(ro[160:], uint64(r.Intn(3)))
		le64(ro[239:], uint64(r.Intn(3)))
		if g := btrfs.RootItem(ro).IsGenerationV2(); g != bytes.Equal(ro[160:168], ro[239:247]) {
			c.violated("IsGenerationV2 is %v for generations %x and %x", g, ro[160:168], ro[239:247])
		}
		c.count("evaluations", 7)
		c.seen("case", "names", nl, pl, ty, loc.Type)
	}
	// Leaves
	for i := 0; i < c.pick(1500, 50000) && !c.failed(); i++ {
		bs := uint64([]int{512, 1024, 4096, 8192, 16384, 32768, 65536}[r.Intn(7)])
		var items []Rec
		space := int(bs) - leafHdr
		for len(items) < 400 {
			n := r.Intn(120)
			if r.Intn(20) == 0 {
				n = r.Intn(space + 1)
			}
			if itemHdr+n > space {
				break
			}
			space -= itemHdr + n
			items = append(items, Rec{Key: Key{r.Uint64(), uint8(r.Intn(256)), r.Uint64()}, Data: []byte(str(n))})
			if r.Intn(60) == 0 {
				break
			}
		}
		b := buildLeaf(randUUID(r), randUUID(r), bs, r.Uint64(), r.Uint64(), r.Uint64(), items, r)
		lv := uint8(0)
		if r.Intn(4) == 0 {
			lv = uint8(r.Intn(256))
			b[100] = lv
		}
		c.guard("leaf", func() {
			l := btrfs.Leaf(b[:bs:bs])
			if l.Len() != len(items) || len(l.Items()) != len(items) || l.Header().IsLeaf() != (lv == 0) {
				c.violated("leaf of %d items at level %d: %d items, list of %d, leaf %v", len(items), lv, l.Len(), len(l.Items()), l.Header().IsLeaf())
				return
			}
			its := l.Items()
			for k, it := range items {
				x := l.Item(k)
				if mkey(l.Key(k)) != it.Key || mkey(x.Key()) != it.Key || mkey(its[k].Key()) != it.Key || !bytes.Equal(l.Data(k), it.Data) || int(x.Size()) != len(it.Data) {
					c.violated("leaf of %d items, block size %d: item %d is key %v, %d bytes (equal: %v), stored is %v, %d bytes", len(items), bs, k, mkey(l.Key(k)), len(l.Data(k)), bytes.Equal(l.Data(k), it.Data), it.Key, len(it.Data))
					return
				}
			}
			c.count("evaluations", 1)
			c.count("leaf_items", len(items))
			c.seen("case", "leaf", bs, len(items))
		})
	}
}

func refParseUUID(s string) ([16]byte, bool) {
	var u [16]byte
	n := 0
	for i := 0; i < len(s); i++ {
		ch := s[i]
		var d byte
		switch {
		case ch == '-':
			continue
		case ch >= '0' && ch <= '9':
			d = ch - '0'
		case ch >= 'a' && ch <= 'f':
			d = ch - 'a' + 10
		case ch >= 'A' && ch <= 'F':
			d = ch - 'A' + 10
		default:
			return u, false
		}
		if n < 32 {
			u[n/2] |= d << (4 * uint(1-n%2))
		}
		n++
	}
	return u, n == 32
}

func checkC23(c *Check) {
	r := c.rng(0)
	n := c.pick(40000, 3000000)
	for i := 0; i < n && !c.failed(); i++ {
		var u [16]byte
		fillBytes(r, u[:])
		h := hex.EncodeToString(u[:])
		canon := h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
		c.guard("formatting", func() {
			if g := uuid.UUID(u).String(); g != canon {
				c.violated("id %x is formatted as %q", u, g)
			}
			g, err := uuid.New(canon)
			if err != nil || g != uuid.UUID(u) {
				c.violated("parsing %q gives %v, %v", canon, g, err)
			}
			if uuid.UUID(u).IsZero() != (u == [16]byte{}) || uuid.UUID(u).IsAllFs() != (h == strings.Repeat("f", 32)) {
				c.violated("%x: all-zero %v all-ones %v", u, uuid.UUID(u).IsZero(), uuid.UUID(u).IsAllFs())
			}
		})
		// Texts
		s := []byte(canon)
		kinds := 1 + r.Intn(3)
		if r.Intn(8) == 0 {
			s = []byte(h)
		}
		for k := 0; k < kinds; k++ {
			if len(s) == 0 {
				break
			}
			p := r.Intn(len(s) + 1)
			q := r.Intn(len(s))
			switch r.Intn(12) {
			case 0: // a dash anywhere
				s = append(s[:p:p], append([]byte("-"), s[p:]...)...)
			case 1: // move dashes
				s = []byte(h)
				for j := 0; j < r.Intn(6); j++ {
					p := r.Intn(len(s) + 1)
					s = append(s[:p:p], append([]byte(strings.Repeat("-", 1+r.Intn(3))), s[p:]...)...)
				}
			case 2:
				s = []byte(strings.ToUpper(string(s)))
			case 3:
				if s[q] >= 'a' && s[q] <= 'f' {
					s[q] -= 32
				}
			case 4: // a digit less
				s = append(s[:q:q], s[q+1:]...)
			case 5: // a digit more
				s = append(s[:p:p], append([]byte{"0123456789abcdefABCDEF"[r.Intn(22)]}, s[p:]...)...)
			case 6: // a foreign character
				s[q] = byte(r.Intn(256))
			case 7:
				s[q] = "gGxX:/@`[{ \t\n.+_"[r.Intn(16)]
			case 8:
				s = append(s[:p:p], append([]byte([]string{" ", "\n", "0x", "{", "}", "\u2010", "\x00", "urn:uuid:"}[r.Intn(8)]), s[p:]...)...)
			case 9:
				s = s[:p]
			case 10:
				s = append(s, s[:r.Intn(len(s)+1)]...)
			case 11: // two digits less or more
				if r.Intn(2) == 0 {
					s = s[:len(s)-2*(len(s)/4)%len(s)]
				} else {
					s = append(s, "ab"...)
				}
			}
		}
		text := string(s)
		want, ok := refParseUUID(text)
		var prev [16]byte
		r.Read(prev[:])
		c.guard(fmt.Sprintf("parsing %q", text), func() {
			v := uuid.UUID(prev)
			err := v.Set(text)
			switch {
			case ok && (err != nil || v != uuid.UUID(want)):
				c.violated("setting from %q gives %v, error %v; expected %x", text, v, err, want)
			case !ok && err == nil:
				c.violated("setting from %q is accepted as %v", text, v)
			case !ok && v != uuid.UUID(prev):
				c.violated("setting from the rejected text %q changed the value from %x to %v", text, prev, v)
			}
			w, err := uuid.New(text)
			if ok != (err == nil) || ok && w != uuid.UUID(want) {
				c.violated("parsing %q gives %v, error %v; expected %x valid %v", text, w, err, want, ok)
			}
		})
		c.count("evaluations", 2)
		if ok {
			c.count("accepted", 1)
		} else {
			c.count("rejected", 1)
		}
		if text != canon {
			c.seen("case", text)
		}
		if i < 3 {
			c.sample(map[string]any{"text": fmt.Sprintf("%q", text), "valid": ok})
		}
	}
}

// faultReader delivers what its script says and logs it.
type faultReader struct {
	size   int64
	seed   uint64
	script []struct {
		n   int // bytes at most, -1 = all
		err error
	}
	calls int
	got   map[int64]bool // offsets delivered
	bad   string
}

func (f *faultReader) at(o int64) byte {
	x := (uint64(o)>>1 + f.seed) * 0x9E3779B97F4A7C15
	return byte(x>>32) ^ byte(o)
}

func (f *faultReader) ReadAt(p []byte, off int64) (int, error) {
	st := f.script[len(f.script)-1]
	if f.calls < len(f.script) {
		st = f.script[f.calls]
	}
	f.calls++
	if f.calls > 10000 {
		f.bad = "endless reading"
		return 0, errors.New("enough")
	}
	n := len(p)
	if st.n >= 0 && st.n < n {
		n = st.n
	}
	err := st.err
	if off+int64(n) > f.size {
		n = int(f.size - off)
		if n < 0 {
			n = 0
		}
		err = io.EOF
	}
	for i := 0; i < n; i++ {
		p[i] = f.at(off + int64(i))
		f.got[off+int64(i)] = true
	}
	return n, err
}

func checkC25(c *Check) {
	r := c.rng(0)
	errs := []error{nil, io.EOF, io.ErrUnexpectedEOF, syscall.EIO, errors.New("other"), io.ErrNoProgress}
	do := func(bl int, off int64, f *faultReader, what string) {
		f.got = map[int64]bool{}
		buf := make([]byte, bl+16)
		for i := range buf {
			buf[i] = 0xA5
		}
		c.guard(what, func() {
			err := ioutil.ReadBlockAt(f, buf[:bl], uint64(off))
			full := true
			for i := 0; i < bl; i++ {
				if !f.got[off+int64(i)] {
					full = false
				}
			}
			c.count("evaluations", 1)
			if !full {
				c.count("incomplete_deliveries", 1)
			}
			switch {
			case f.bad != "":
				c.violated("%s: %s", what, f.bad)
			case err == nil && !full:
				c.violated("%s: success although the block was not delivered completely", what)
			case err != nil && full:
				c.violated("%s: error %v although the whole block was delivered", what, err)
			case err == nil:
				for i := 0; i < bl; i++ {
					if buf[i] != f.at(off+int64(i)) {
						c.violated("%s: success, but byte %d is %#x instead of %#x", what, i, buf[i], f.at(off+int64(i)))
						break
					}
				}
			}
			for i := bl; i < len(buf); i++ {
				if buf[i] != 0xA5 {
					c.violated("%s: wrote behind the block", what)
					break
				}
			}
		})
	}
	type step = struct {
		n   int
		err error
	}
	for _, bl := range []int{1, 2, 3, 16, 512} {
		for n := 0; n <= bl; n++ {
			if bl == 512 && n > 4 && n < 508 && n%31 != 0 {
				continue
			}
			for _, e := range errs {
				f := &faultReader{size: 1 << 40, seed: r.Uint64(), script: []step{{n, e}}}
				do(bl, int64(r.Intn(1<<20)), f, fmt.Sprintf("block of %d, reader returns %d bytes and error %v", bl, n, e))
				c.seen("case", bl, n, fmt.Sprint(e))
			}
		}
	}
	for i := 0; i < c.pick(6000, 400000) && !c.failed(); i++ {
		bl := 1 + r.Intn(64)
		off := int64(r.Intn(200))
		f := &faultReader{size: int64(r.Intn(300)), seed: r.Uint64()}
		if r.Intn(3) == 0 {
			off = []int64{1<<31 - 8, 1<<32 - 8, 1 << 40, 1<<62 + 5}[r.Intn(4)]
			f.size = off + int64(r.Intn(70))
		}
		for k := 0; k < 1+r.Intn(4); k++ {
			f.script = append(f.script, step{r.Intn(bl+2) - 1, errs[r.Intn(len(errs))]})
		}
		do(bl, off, f, fmt.Sprintf("block of %d at %d of %d, reader script %v", bl, off, f.size, f.script))
		c.seen("case", i)
	}
	// Real files
	path := filepath.Join(c.dir("c25"), "f")
	data := make([]byte, 40000)
	r.Read(data)
	must(os.WriteFile(path, data, 0644))
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	for i := 0; i < 3000; i++ {
		bl := []int{1, 512, 4096, 16384, 65536}[r.Intn(5)]
		off := r.Intn(len(data) + bl + 10)
		if r.Intn(3) == 0 {
			off = len(data) - bl + r.Intn(3) - 1
		}
		if off < 0 {
			continue
		}
		buf := make([]byte, bl)
		c.guard("file", func() {
			err := ioutil.ReadBlockAt(f, buf, uint64(off))
			in := off+bl <= len(data)
			if in != (err == nil) || in && !bytes.Equal(buf, data[off:off+bl]) {
				c.violated("file of %d bytes, block of %d at %d: error %v, content right: %v", len(data), bl, off, err, in && bytes.Equal(buf, data[off:off+bl]))
			}
		})
		c.count("evaluations", 1)
		c.count("file_reads", 1)
	}
	c.sample("scripts of (count, error) per ReadAt call; files of 40000 bytes")
}

func refEntropy(b []byte) float64 {
	var h [256]int
	for _, x := range b {
		h[x]++
	}
	cnt := append([]int{}, h[:]...)
	sort.Ints(cnt)
	sum, comp := 0.0, 0.0
	for _, x := range cnt {
		if x == 0 {
			continue
		}
		p := float64(x) / float64(len(b))
		y := -p*math.Log2(p) - comp
		t := sum + y
		comp = (t - sum) - y
		sum = t
	}
	return sum
}

func checkC26(c *Check) {
	c.par(c.pick(3000, 200000), func(i int) {
		r := c.rng(i)
		n := []int{1, 2, 3, 15, 16, 17, 255, 256, 257, 1000, 4096, 65536}[r.Intn(12)]
		if i%500 == 3 {
			n = 1 << 20
		}
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(300)
		}
		b := make([]byte, n)
		switch r.Intn(6) {
		case 0:
			v := byte(r.Intn(256))
			for j := range b {
				b[j] = v
			}
		case 1:
			k := 1 + r.Intn(256)
			for j := range b {
				b[j] = byte(r.Intn(k))
			}
		case 2:
			for j := range b {
				b[j] = byte(j)
			}
		case 3: // nearly constant
			b[r.Intn(n)] = byte(1 + r.Intn(255))
		case 4:
			for j := range b {
				b[j] = byte(int(math.Abs(r.NormFloat64()) * 40))
			}
		default:
			r.Read(b)
		}
		c.guard("entropy", func() {
			keep := append([]byte{}, b...)
			e := coding.ShannonEntropy(b)
			w := refEntropy(keep)
			ctx := fmt.Sprintf("case %d, %d bytes %.40x", i, n, b)
			distinct := map[byte]bool{}
			for _, x := range keep {
				distinct[x] = true
			}
			const eps = 1e-9
			if !(math.Abs(e-w) <= eps) || e < 0 || e > 8+eps {
				c.violated("%s: score %v, defining sum %v", ctx, e, w)
			}
			if (e == 0) != (len(distinct) == 1) {
				c.violated("%s: score %v with %d distinct values", ctx, e, len(distinct))
			}
			if !bytes.Equal(b, keep) {
				c.violated("%s: input changed", ctx)
			}
			p := append([]byte{}, b...)
			r.Shuffle(n, func(x, y int) { p[x], p[y] = p[y], p[x] })
			perm := r.Perm(256)
			q := make([]byte, n)
			for j := range q {
				q[j] = byte(perm[b[j]])
			}
			rep := bytes.Repeat(b, 2+r.Intn(3))
			for k, v := range map[string][]byte{"reordered": p, "relabelled": q, "repeated": rep} {
				if g := coding.ShannonEntropy(v); !(math.Abs(g-e) <= eps) {
					c.violated("%s: score %v, but %v when %s", ctx, e, g, k)
				}
				c.count("relations", 1)
			}
			c.count("evaluations", 1)
			if len(distinct) > 1 {
				c.seen("case", string(keep[:min(len(keep), 100)]), n)
			}
		})
		if i == 5 {
			c.sample(map[string]any{"bytes": n, "score": coding.ShannonEntropy(b)})
		}
	})
}

func checkC31(c *Check) {
	// Values found on real file systems
	for nm, h := range map[string]uint32{"default": 2378154706} {
		if refNameHash([]byte(nm)) != h {
			panic("harness: reference hash")
		}
		if g := index.NameHash(nm); g != h {
			c.violated("hash of %q is %d, real file systems have %d", nm, g, h)
		}
	}
	r := c.rng(0)
	for i := 0; i < c.pick(60000, 4000000) && !c.failed(); i++ {
		n := i % 301
		b := make([]byte, n)
		fillBytes(r, b)
		if r.Intn(3) == 0 {
			for j := range b {
				b[j] = byte(32 + r.Intn(90))
			}
		}
		nm := string(b)
		c.guard("hash", func() {
			if g, w := index.NameHash(nm), refNameHash(b); g != w {
				c.violated("hash of %q is %#x, BTRFS uses %#x", nm, g, w)
			}
		})
		c.count("evaluations", 1)
		if n > 0 {
			c.seen("case", nm)
		}
	}
	// Every single byte and every pair with one byte set
	for x := 0; x < 65536; x++ {
		b := []byte{byte(x), byte(x >> 8)}
		if g, w := index.NameHash(string(b)), refNameHash(b); g != w {
			c.violated("hash of %x is %#x, BTRFS uses %#x", b, g, w)
			break
		}
		c.count("evaluations", 1)
	}
	c.sample(map[string]any{"name": "default", "hash": 2378154706})
}

func checkC32(c *Check) {
	c.par(c.pick(3000, 200000), func(i int) {
		r := c.rng(i)
		n := r.Intn(60)
		capx := n + r.Intn(3)*r.Intn(40)
		back := make([]byte, capx)
		r.Read(back)
		data := back[:n]
		keep := append([]byte{}, back...)
		p := btrfs.NewParseBuffer(data)
		off := 0
		end := false
		try := func(fn func()) (pan bool) {
			defer func() {
				if recover() != nil {
					pan = true
				}
			}()
			fn()
			return
		}
		le := func(o, w int) (v uint64) {
			for k := w - 1; k >= 0; k-- {
				v = v<<8 | uint64(keep[o+k])
			}
			return
		}
		var hist []string
		for s := 0; s < 40; s++ {
			op := r.Intn(9)
			w := 0
			var got any
			var pan bool
			var nm string
			switch op {
			case 0:
				w, nm = 1, "NextUint8"
				pan = try(func() { got = uint64(p.NextUint8()) })
			case 1:
				w, nm = 2, "NextUint16"
				pan = try(func() { got = uint64(p.NextUint16()) })
			case 2:
				w, nm = 4, "NextUint32"
				pan = try(func() { got = uint64(p.NextUint32()) })
			case 3:
				w, nm = 8, "NextUint64"
				pan = try(func() { got = p.NextUint64() })
			case 4:
				w, nm = 12, "NextTime"
				pan = try(func() { got = p.NextTime() })
			case 5, 6:
				w = r.Intn(20)
				if r.Intn(3) == 0 {
					w = n - off + r.Intn(3)
				}
				nm = fmt.Sprintf("Next(%d)", w)
				pan = try(func() { got = p.Next(w) })
			case 7:
				o := r.Intn(n + 1)
				nm, w = fmt.Sprintf("SetOffset(%d)", o), -1
				p.SetOffset(o)
				off = o
			case 8:
				nm, w = "Rewind", -1
				p.Rewind()
				off = 0
			}
			hist = append(hist, nm)
			ctx := fmt.Sprintf("case %d: %d bytes (capacity %d), operations %v", i, n, capx, hist)
			if w >= 0 {
				over := off+w > n
				if over != pan {
					if pan {
						c.violated("%s: failed with %d bytes remaining", ctx, n-off)
					} else {
						c.violated("%s: returned %v with only %d bytes remaining", ctx, got, n-off)
					}
					return
				}
				if over {
					end = true
					// A failed read says nothing about the position.
					o := r.Intn(n + 1)
					p.SetOffset(o)
					off = o
					hist = append(hist, fmt.Sprintf("SetOffset(%d)", o))
				} else {
					ok := true
					switch op {
					case 0, 1, 2, 3:
						ok = got.(uint64) == le(off, w)
					case 4:
						ns := le(off+8, 4)
						want := time.Unix(int64(le(off, 8)), int64(ns))
						ok = got.(time.Time).Equal(want)
					default:
						ok = bytes.Equal(got.([]byte), keep[off:off+w])
					}
					if !ok {
						c.violated("%s: returned %v, the bytes are %x", ctx, got, keep[off:off+w])
						return
					}
					off += w
				}
			}
			if p.Offset() != off || p.Len() != n || p.Unread() != n-off {
				c.violated("%s: position %d of %d with %d unread, expected position %d of %d", ctx, p.Offset(), p.Len(), p.Unread(), off, n)
				return
			}
			if off == n {
				end = true
			}
			c.count("evaluations", 1)
		}
		if !bytes.Equal(back, keep) {
			c.violated("case %d: the buffer was changed by %v", i, hist)
		}
		if end {
			c.seen("case", fmt.Sprint(n, capx, hist))
		}
		if i == 0 {
			c.sample(hist)
		}
	})
}

// lockFree tells whether the file can be locked exclusively right now.
func lockFree(path string) bool {
	f, err := os.Open(path)
	if err != nil {
		return true
	}
	defer f.Close()
	if err := syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
		return false
	}
	syscall.Flock(int(f.Fd()), syscall.LOCK_UN)
	return true
}

func listDir(d string) []string {
	var out []string
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			out = append(out, fmt.Sprintf("%s %v %d", p, fi.Mode(), fi.Size()))
		}
		return nil
	})
	return out
}

// openTimed opens an index, giving up if it takes too long (a lock that is
// never released).
func openTimed(fn func() (*index.Index, error)) (ix *index.Index, err error, hung bool) {
	type res struct {
		ix  *index.Index
		err error
		p   any
	}
	ch := make(chan res, 1)
	go func() {
		var x res
		defer func() {
			x.p = recover()
			ch <- x
		}()
		x.ix, x.err = fn()
	}()
	select {
	case x := <-ch:
		if x.p != nil {
			return nil, fmt.Errorf("PANIC %v", x.p), false
		}
		return x.ix, x.err, false
	case <-time.After(60 * time.Second):
		return nil, nil, true
	}
}

func checkC27(c *Check) {
	c.par(c.pick(120, 5000), func(i int) {
		r := c.rng(i)
		dir := c.dir(fmt.Sprintf("c27/%d", i))
		path := filepath.Join(dir, "m")
		fsid := randUUID(r)
		bs := uint([]int{512, 4096, 16384, 65536, 1 << 31, 4097}[r.Intn(6)])
		gen := poolGen[r.Intn(len(poolGen))]
		recs := randRecs(r, 1+r.Intn(60), i%3)
		ix := openRW(path, fsid, bs, gen)
		s := newRecset()
		meta := func(ix *index.Index, when string) {
			c.guard("metadata "+when, func() {
				m := ix.Metadata()
				if m.FSID() != uuid.UUID(fsid) || uint(m.BlockSize()) != bs || m.Generation() != gen {
					c.violated("case %d %s: reports id %v block size %d generation %d, created with %v %d %d", i, when, m.FSID(), m.BlockSize(), m.Generation(), fsid, bs, gen)
				}
				c.count("metadata_reports", 1)
			})
		}
		meta(ix, "after creation")
		for _, rec := range recs {
			mustInsert(ix, rec)
			s.put(rec)
		}
		meta(ix, "after inserting")
		must(ix.Commit())
		ix.Close()
		verify := func(ix *index.Index, when string) {
			ix.Generation = ^uint64(0)
			for _, rec := range recs {
				_, data, _ := s.find(rec.Owner, rec.Key, ^uint64(0))
				if it := ix.FindItem(rec.Owner, bkey(rec.Key)); it == nil || !bytes.Equal(it.Data(), data) {
					c.violated("case %d %s: record %d %v is gone or changed", i, when, rec.Owner, rec.Key)
					return
				}
			}
		}
		setVersion := func(v uint64) {
			db, err := bbolt.Open(path, 0644, nil)
			must(err)
			must(db.Update(func(tx *bbolt.Tx) error {
				b := tx.Bucket([]byte("index"))
				m := append([]byte{}, b.Get(index.MetadataKey)...)
				if len(m) < 8 {
					return errors.New("no metadata record")
				}
				le64(m, v)
				return b.Put(index.MetadataKey, m)
			}))
			must(db.Close())
		}
		cur := uint64(0)
		{
			db, err := bbolt.Open(path, 0644, &bbolt.Options{ReadOnly: true})
			must(err)
			db.View(func(tx *bbolt.Tx) error {
				cur = binary.LittleEndian.Uint64(tx.Bucket([]byte("index")).Get(index.MetadataKey))
				return nil
			})
			must(db.Close())
		}
		// attempt opens and checks the outcome.
		attempt := func(what string, wantOK bool, fn func() (*index.Index, error)) {
			before, berr := os.ReadFile(path)
			lb := listDir(dir)
			ix, err, hung := openTimed(fn)
			c.count("evaluations", 1)
			ctx := fmt.Sprintf("case %d: %s", i, what)
			switch {
			case hung:
				c.violated("%s: the open never returns", ctx)
				return
			case err != nil && strings.HasPrefix(err.Error(), "PANIC"):
				c.violated("%s: %v", ctx, err)
				return
			case wantOK && err != nil:
				c.violated("%s: refused: %v", ctx, err)
			case !wantOK && err == nil:
				c.violated("%s: not refused", ctx)
				ix.Close()
			case wantOK:
				c.count("opened", 1)
				meta(ix, what)
				verify(ix, what)
				ix.Close()
			default:
				c.count("refused", 1)
				c.seen("case", i, what)
				after, aerr := os.ReadFile(path)
				if !bytes.Equal(before, after) || (berr == nil) != (aerr == nil) {
					c.violated("%s: the refused open changed the file", ctx)
				}
				if la := listDir(dir); !reflect.DeepEqual(la, lb) {
					c.violated("%s: the refused open changed the folder: %v, before %v", ctx, la, lb)
				}
			}
			if !lockFree(path) {
				c.violated("%s: the file is still locked after the open was %s", ctx, map[bool]string{true: "closed", false: "refused"}[err == nil])
			}
		}
		rw := func(u UUID, b uint, g uint64, old bool) func() (*index.Index, error) {
			return func() (*index.Index, error) {
				return index.Open(path, 0644, &index.Options{BlockSize: b, FSID: uuid.UUID(u), Generation: g, AllowOldVersion: old})
			}
		}
		ro := func() (*index.Index, error) { return index.OpenReadOnly(path) }
		roOpt := func(u UUID, b uint) func() (*index.Index, error) {
			return func() (*index.Index, error) {
				return index.Open(path, 0644, &index.Options{BlockSize: b, FSID: uuid.UUID(u), Generation: ^uint64(0), ReadOnly: true})
			}
		}
		other := fsid
		other[r.Intn(16)] ^= 1 << uint(r.Intn(8))
		obs := []uint{bs + 1, bs - 1, bs * 2, bs ^ 4096, 0, 16384, 4096, bs ^ 1<<uint(r.Intn(33)), bs + 1<<32, bs + 1<<48, bs * 256}[r.Intn(11)]
		if obs == bs {
			obs = bs + 512
		}
		steps := []func(){
			func() { attempt("matching open", true, rw(fsid, bs, gen, false)) },
			func() { attempt("matching open with another view", true, rw(fsid, bs, gen+7, false)) },
			func() { attempt("open with another id", false, rw(other, bs, gen, false)) },
			func() { attempt("open with another block size", false, rw(fsid, obs, gen, false)) },
			func() { attempt("open with another id and block size", false, rw(other, obs, gen, false)) },
			func() { attempt("open with the zero id", false, rw(UUID{}, bs, gen, false)) },
			func() { attempt("open with the all-ones id", false, rw(UUID(allOnes), bs, gen, false)) },
			func() {
				path2 := filepath.Join(dir, "large")
				ix, err := index.Open(path2, 0644, &index.Options{BlockSize: bs + 1<<32, FSID: uuid.UUID(fsid), Generation: gen})
				c.count("evaluations", 1)
				if err == nil {
					m := ix.Metadata()
					if b := m.BlockSize(); uint64(b) != uint64(bs+1<<32) {
						c.violated("case %d: an index created with block size %d reports %d", i, bs+1<<32, b)
					}
					ix.Close()
					os.Remove(path2)
				} else if _, err := os.Lstat(path2); err == nil {
					c.violated("case %d: the refused creation left a file", i)
				}
			},
			func() { attempt("open for reading", true, ro) },
			func() { attempt("open for reading with another id and block size", true, roOpt(other, obs)) },
			func() {
				v := []uint64{cur - 1, 20161109, 0, 1}[r.Intn(4)]
				setVersion(v)
				attempt(fmt.Sprintf("open of version %d", v), false, rw(fsid, bs, gen, false))
				attempt(fmt.Sprintf("open for reading of version %d", v), false, ro)
				setVersion(cur)
				attempt("matching open after restoring the version", true, rw(fsid, bs, gen, false))
			},
			func() {
				v := []uint64{cur + 1, 1 << 32, cur + 1<<32, ^uint64(0), 1 << 63}[r.Intn(5)]
				setVersion(v)
				attempt(fmt.Sprintf("open of version %d", v), false, rw(fsid, bs, gen, false))
				attempt(fmt.Sprintf("open for reading of version %d", v), false, ro)
				attempt(fmt.Sprintf("open for upgrading of version %d", v), false, rw(fsid, bs, gen, true))
				setVersion(cur)
				attempt("open for reading after restoring the version", true, ro)
			},
			func() { // as an upgrade would
				v := []uint64{cur - 1, 20161109, 0, 1, cur, cur}[r.Intn(6)]
				setVersion(v)
				attempt(fmt.Sprintf("open for upgrading of version %d", v), true, rw(other, obs&0xffffffff, gen+3, true))
				attempt(fmt.Sprintf("open for upgrading of version %d, reading only", v), true, func() (*index.Index, error) {
					return index.Open(path, 0644, &index.Options{BlockSize: obs, FSID: uuid.UUID(other), ReadOnly: true, AllowOldVersion: true})
				})
				if v != cur {
					attempt(fmt.Sprintf("open of version %d after that", v), false, rw(fsid, bs, gen, false))
				}
				setVersion(cur)
				c.count("opened_for_upgrading", 1)
			},
		}
		steps = append(steps, func() { // not even an item under its own key
			ix, err := rw(fsid, bs, gen, false)()
			if err != nil {
				c.violated("case %d: %v", i, err)
				return
			}
			c.guard("reserved key", func() {
				rec := Rec{Owner: ^uint64(0), Key: Key{neg(256), 255, ^uint64(0)}, Gen: ^uint64(0), Data: make([]byte, r.Intn(80))}
				_ = insert(ix, rec) // refused or not
				meta(ix, "after inserting under its key")
				ix.Close()
			})
			c.count("evaluations", 1)
			attempt("matching open after inserting under the identity's key", true, rw(fsid, bs, gen, false))
			attempt("open for reading after inserting under the identity's key", true, ro)
		})
		for k := 0; k < 12; k++ {
			steps[r.Intn(len(steps))]()
			if c.failed() {
				return
			}
		}
		// Files that are no index
		good, err := os.ReadFile(path)
		must(err)
		for k := 0; k < 4; k++ {
			kind := ""
			bad := false // RW open may legitimately create an index
			edit := func(fn func(b *bbolt.Bucket) error) {
				db, err := bbolt.Open(path, 0644, nil)
				must(err)
				must(db.Update(func(tx *bbolt.Tx) error { return fn(tx.Bucket([]byte("index"))) }))
				must(db.Close())
			}
			switch r.Intn(10) {
			case 7:
				kind = "index without identity"
				bad = true
				edit(func(b *bbolt.Bucket) error { return b.Delete(index.MetadataKey) })
			case 8:
				kind = "index with a cut identity"
				edit(func(b *bbolt.Bucket) error {
					m := b.Get(index.MetadataKey)
					return b.Put(index.MetadataKey, append([]byte{}, m[:r.Intn(len(m))]...))
				})
			case 9:
				kind = "index with a bucket as identity"
				edit(func(b *bbolt.Bucket) error {
					if err := b.Delete(index.MetadataKey); err != nil {
						return err
					}
					_, err := b.CreateBucket(index.MetadataKey)
					return err
				})
			case 0:
				kind = "random bytes"
				b := make([]byte, r.Intn(40000)+1)
				r.Read(b)
				must(os.WriteFile(path, b, 0644))
			case 1:
				kind = "zeros"
				must(os.WriteFile(path, make([]byte, 32768), 0644))
			case 2:
				kind = "text"
				must(os.WriteFile(path, []byte("this is no metadata\n"), 0644))
			case 3:
				kind = "index without its start"
				must(os.WriteFile(path, append(make([]byte, 8192), good[8192:]...), 0644))
			case 4:
				kind = "missing file"
				must(os.Remove(path))
				bad = true
			case 5:
				kind = "database of something else"
				must(os.Remove(path))
				db, err := bbolt.Open(path, 0644, nil)
				must(err)
				must(db.Update(func(tx *bbolt.Tx) error {
					b, err := tx.CreateBucket([]byte([]string{"indexes", "other", "Index"}[r.Intn(3)]))
					if err == nil {
						err = b.Put([]byte("k"), []byte("v"))
					}
					return err
				}))
				must(db.Close())
				bad = true
			case 6:
				kind = "truncated index"
				must(os.WriteFile(path, good[:1+r.Intn([]int{4096, 16383}[r.Intn(2)])], 0644))
			}
			attempt("open for reading of "+kind, false, ro)
			if !bad {
				attempt("open of "+kind, false, rw(fsid, bs, gen, false))
			}
			must(os.WriteFile(path, good, 0644))
			attempt("matching open after "+kind, true, rw(fsid, bs, gen, false))
			if c.failed() {
				return
			}
		}
		// Folders
		p2 := filepath.Join(dir, "no", "such", "m")
		if x, err, _ := openTimed(func() (*index.Index, error) { return index.OpenReadOnly(p2) }); err == nil {
			x.Close()
			c.violated("case %d: a missing file in a missing folder was opened", i)
		}
		if _, err := os.Stat(filepath.Join(dir, "no")); err == nil {
			c.violated("case %d: opening for reading created a folder", i)
		}
		if x, err, _ := openTimed(func() (*index.Index, error) { return index.OpenReadOnly(dir) }); err == nil {
			x.Close()
			c.violated("case %d: a folder was opened as an index", i)
		}
		os.RemoveAll(dir)
		if i == 0 {
			c.sample(map[string]any{"records": len(recs), "block size": bs, "generation": fmt.Sprint(gen)})
		}
	})
}

// c28state is the model of an index file.
type c28state map[recKey][]byte

func (s c28state) clone() c28state {
	o := c28state{}
	for k, v := range s {
		o[k] = v
	}
	return o
}

// readAllRecs reads every record of an index through the real code.
func readAllRecs(ix *index.Index) c28state {
	out := c28state{}
	for r, d := ix.FullRange(); r.HasNext(); d = r.Next() {
		if mkey(r.Item().Key()) != mkey(r.Key()) {
			d = []byte("(item with another key)")
		}
		out[recKey{r.Owner(), mkey(r.Key()), r.Generation()}] = append([]byte{}, d...)
	}
	return out
}

func diffState(got, want c28state) string {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("record %d %v @%d is missing", k.Owner, k.Key, k.Gen)
		}
		if !bytes.Equal(g, v) {
			return fmt.Sprintf("record %d %v @%d is %.60q instead of %.60q", k.Owner, k.Key, k.Gen, g, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("record %d %v @%d was never written", k.Owner, k.Key, k.Gen)
		}
	}
	return ""
}

func rawKey(k recKey) []byte {
	b := make([]byte, 33)
	binary.BigEndian.PutUint64(b, k.Owner)
	b[8] = k.Key.Type
	binary.BigEndian.PutUint64(b[9:], k.Key.Obj)
	binary.BigEndian.PutUint64(b[17:], k.Key.Off)
	binary.BigEndian.PutUint64(b[25:], k.Gen)
	return b
}

// checkC28close inserts every number of records up to some, and numbers around
// limits one might choose, closes the index and looks whether all are there.
func checkC28close(c *Check) {
	var ns []int
	for n := 0; n <= c.pick(600, 5000); n++ {
		ns = append(ns, n)
	}
	for _, n := range []int{1000, 1024, 2000, 2048, 4000, 4096, 5000, 8192, 9984, 10000, 10240, 12288, 16384, 20000, 20480, 30000} {
		for d := -2; d <= 3; d++ {
			ns = append(ns, n+d)
		}
	}
	if c.Thorough {
		ns = append(ns, 32768, 65535, 65536, 65537, 99999, 100000, 100001, 131072)
	}
	c.par(len(ns), func(i int) {
		n := ns[i]
		dir := c.dir(fmt.Sprintf("c28close/%d", i))
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "m")
		what := fmt.Sprintf("closing after %d insertions", n)
		c.guard(what, func() {
			ix := openRW(path, UUID{1}, 4096, ^uint64(0))
			sessions := 1 + i%2
			at := 0
			for s := 0; s < sessions; s++ {
				for k := 0; k < n; k++ {
					rec := Rec{Owner: 5, Key: Key{uint64(1000 + at), tInodeItem, 0}, Gen: 7, Data: []byte(fmt.Sprint(at))}
					if err := insert(ix, rec); err != nil {
						c.violated("%s: insertion %d: %v", what, k, err)
						return
					}
					at++
				}
				if s+1 < sessions {
					if err := ix.Commit(); err != nil {
						c.violated("%s: commit: %v", what, err)
						return
					}
				}
			}
			ix.Close()
			ix = openRO(path)
			defer ix.Close()
			for k := 0; k < at; k++ {
				it := ix.FindItem(5, bkey(Key{uint64(1000 + k), tInodeItem, 0}))
				if it == nil || string(it.Data()) != fmt.Sprint(k) {
					c.violated("%s (sessions: %d): record %d is %.80q after reopening", what, sessions, k, []byte(it))
					return
				}
			}
			c.count("evaluations", 1)
			c.count("closed_after", 1)
			c.seen("case", "close", n, sessions)
		})
	})
}

func checkC28(c *Check) {
	if c.only < 0 {
		checkC28close(c)
	}
	c.par(c.pick(168, 3000), func(i int) {
		r := c.rng(i)
		dir := c.dir(fmt.Sprintf("c28/%d", i))
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "m")
		big := i%14 == 13
		cur, committed := c28state{}, c28state{}
		var hist []string
		log := func(f string, a ...any) {
			hist = append(hist, fmt.Sprintf(f, a...))
			if len(hist) > 60 {
				hist = hist[len(hist)-60:]
			}
		}
		ctx := func() string { return fmt.Sprintf("case %d after %s", i, strings.Join(hist, "; ")) }
		ix := openRW(path, UUID{1}, 4096, ^uint64(0))
		open := true
		defer func() {
			if open {
				c.guard("close", func() { ix.Close() })
			}
		}()
		pool := randRecs(r, 150, i%3)
		id := 0
		// newest finds the record a query at the newest view returns.
		newest := func(o uint64, k Key) ([]byte, bool) {
			var best uint64
			var d []byte
			ok := false
			for rk, v := range cur {
				if rk.Owner == o && rk.Key == k && (!ok || rk.Gen >= best) {
					best, d, ok = rk.Gen, v, true
				}
			}
			return d, ok
		}
		query := func(o uint64, k Key) {
			c.guard(ctx()+": query", func() {
				d, ok := newest(o, k)
				it := ix.FindItem(o, bkey(k))
				c.count("evaluations", 1)
				if ok != (it != nil) || ok && !bytes.Equal(it.Data(), d) {
					c.violated("%s: query of %d %v gives %.80q, expected %.80q (present: %v)", ctx(), o, k, []byte(it), d, ok)
				}
			})
		}
		type write struct {
			k recKey
			v []byte
		}
		var since []write // insertions since the last commit
		commit := func() { committed, since = cur.clone(), nil }
		one := func(rec Rec) {
			id++
			rec.Data = append([]byte(fmt.Sprintf("v%d ", id)), rec.Data...)
			if id%9 == 0 {
				rec.Data = []byte{}
			}
			c.guard(ctx()+": insert", func() {
				if err := insert(ix, rec); err != nil {
					c.violated("%s: inserting %d %v @%d failed: %v", ctx(), rec.Owner, rec.Key, rec.Gen, err)
				}
			})
			cur[recKey{rec.Owner, rec.Key, rec.Gen}] = rec.Data
			since = append(since, write{recKey{rec.Owner, rec.Key, rec.Gen}, rec.Data})
		}
		crash := func() {
			// The file as a process that dies now leaves it
			b, err := os.ReadFile(path)
			must(err)
			p2 := filepath.Join(dir, "crash")
			must(os.WriteFile(p2, b, 0644))
			c.guard(ctx()+": opening after a crash", func() {
				x, err, hung := openTimed(func() (*index.Index, error) {
					return index.Open(p2, 0644, &index.Options{BlockSize: 4096, FSID: uuid.UUID{1}, Generation: ^uint64(0)})
				})
				if err != nil || hung {
					c.violated("%s: a crash here leaves a file that cannot be opened: %v", ctx(), err)
					return
				}
				got := readAllRecs(x)
				x.Close()
				c.count("crash_points", 1)
				// It must be the state after the last commit or after one
				// of the insertions since.
				at := committed.clone()
				bad := 0
				eq := func(k recKey) bool {
					g, gok := got[k]
					w, wok := at[k]
					return gok == wok && bytes.Equal(g, w)
				}
				for k := range committed {
					if !eq(k) {
						bad++
					}
				}
				for k := range got {
					if _, ok := committed[k]; !ok {
						bad++
					}
				}
				ok := bad == 0
				for j := 0; j < len(since) && !ok; j++ {
					k := since[j].k
					if !eq(k) {
						bad--
					}
					at[k] = since[j].v
					if !eq(k) {
						bad++
					}
					ok = bad == 0
				}
				if !ok {
					c.violated("%s: after a crash the file holds neither the last committed state nor that of an insertion since; compared with the committed state: %s; with the latest: %s", ctx(), diffState(got, committed), diffState(got, cur))
				}
			})
			os.Remove(p2)
			c.seen("case", i, len(hist), fmt.Sprint(hist))
		}
		ops := c.pick(220, 500)
		if big {
			ops = 60
		}
		for s := 0; s < ops && !c.failed(); s++ {
			switch op := r.Intn(24); {
			case op < 10:
				rec := pool[r.Intn(len(pool))]
				log("insert %d%v@%d", rec.Owner, rec.Key, rec.Gen)
				one(rec)
				query(rec.Owner, rec.Key)
			case op == 10 && big: // more than one automatic commit holds
				n := []int{9990, 10001, 10002, 12000, 20003, 25000}[r.Intn(6)]
				log("%d inserts", n)
				for k := 0; k < n && !c.failed(); k++ {
					rec := Rec{Owner: 5, Key: Key{uint64(1000 + k), tInodeItem, uint64(s)}, Gen: 7, Data: make([]byte, 20)}
					one(rec)
					if k%997 == 0 || k > 9995 && k < 10006 || k > n-3 {
						query(5, rec.Key)
						query(pool[0].Owner, pool[0].Key)
					}
				}
			case op < 14:
				rec := pool[r.Intn(len(pool))]
				log("query")
				query(rec.Owner, rec.Key)
			case op < 16:
				log("commit")
				c.guard(ctx(), func() {
					if err := ix.Commit(); err != nil {
						c.violated("%s: failed: %v", ctx(), err)
					}
				})
				commit()
				c.count("commits", 1)
				crash()
				if r.Intn(2) == 0 { // queries right after a commit
					rec := pool[r.Intn(len(pool))]
					query(rec.Owner, rec.Key)
				}
			case op < 19:
				fail := r.Intn(2) == 0
				put := map[recKey][]byte{}
				var del []recKey
				for k := 0; k < 1+r.Intn(4); k++ {
					rec := pool[r.Intn(len(pool))]
					id++
					rk := recKey{rec.Owner, rec.Key, rec.Gen}
					if r.Intn(3) == 0 {
						del = append(del, rk)
					} else {
						put[rk] = append([]byte(fmt.Sprintf("raw%d ", id)), rec.Data...)
					}
				}
				log("raw transaction (puts %d, deletes %d, fails %v)", len(put), len(del), fail)
				c.guard(ctx(), func() {
					boom := errors.New("no")
					err := ix.RawTx(func(db *bbolt.DB, tx *bbolt.Tx, b *bbolt.Bucket) error {
						// What was inserted before is visible here
						for k, v := range cur {
							if x := b.Get(rawKey(k)); len(x) < itemHdr || !bytes.Equal(x[itemHdr:], v) {
								c.violated("%s: the transaction does not see the record %d %v @%d", ctx(), k.Owner, k.Key, k.Gen)
								break
							}
							if len(cur) > 2000 {
								break
							}
						}
						for _, k := range del {
							must(b.Delete(rawKey(k)))
						}
						for k, v := range put {
							it := append(itemBytes(k.Key, 0, uint32(len(v))), v...)
							must(b.Put(rawKey(k), it))
						}
						if fail {
							return boom
						}
						return nil
					})
					if fail != (err != nil) {
						c.violated("%s: returned %v", ctx(), err)
					}
				})
				c.count("raw_transactions", 1)
				if !fail {
					for _, k := range del {
						delete(cur, k)
					}
					for k, v := range put {
						cur[k] = v
					}
					commit()
				}
				for k := range put {
					query(k.Owner, k.Key)
				}
				for _, k := range del {
					query(k.Owner, k.Key)
				}
				if r.Intn(3) == 0 {
					crash()
				}
			case op == 19:
				log("crash")
				crash()
			case op == 20:
				log("full iteration")
				c.guard(ctx(), func() {
					if d := diffState(readAllRecs(ix), cur); d != "" {
						c.violated("%s: %s", ctx(), d)
					}
				})
			case op == 21:
				log("reopen for writing")
				c.guard(ctx(), func() {
					ix.Close()
					open = false
					ix = openRW(path, UUID{1}, 4096, ^uint64(0))
					open = true
					if d := diffState(readAllRecs(ix), cur); d != "" {
						c.violated("%s: %s", ctx(), d)
					}
				})
				commit()
			case op == 22:
				log("reopen for reading")
				c.guard(ctx(), func() {
					ix.Close()
					open = false
					x := openRO(path)
					if d := diffState(readAllRecs(x), cur); d != "" {
						c.violated("%s: %s", ctx(), d)
					}
					x.Close()
					ix = openRW(path, UUID{1}, 4096, ^uint64(0))
					open = true
				})
				commit()
			default:
				log("metadata")
				c.guard(ctx(), func() {
					if m := ix.Metadata(); m.BlockSize() != 4096 {
						c.violated("%s: block size %d", ctx(), m.BlockSize())
					}
				})
			}
			c.count("steps", 1)
		}
		if i == 0 {
			c.sample(hist[:min(20, len(hist))])
		}
	})
}
