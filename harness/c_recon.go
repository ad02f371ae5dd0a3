package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	checks["C01"] = checkDef{fn: checkC01, level: "exploration", min: 20000,
		rule: "generated and hand-laid images of all block sizes scanned by the real program; every record of the resulting index compared with the leaf items the independent writer put on disk; an evaluation is one recorded item, non-trivial images hold blocks that must not be recorded"}
	checks["C02"] = checkDef{fn: checkC02, level: "exploration", min: 60,
		rule: "random histories of scans of partial images of one file system into one metadata file, with repeated and refused scans in between; the index is compared with the union model after every scan"}
	checks["C03"] = checkDef{fn: checkC03, level: "fault_enumeration", min: 300, cpu: 6000,
		rule: "crash states rebuilt from the system-call trace of a real scan at operation boundaries with sampled choices of lost unsynced 4 KiB pages, and real kills at random moments; every state is opened, read and (sampled) completed by another scan"}
	checks["C04"] = checkDef{fn: checkC04, level: "exploration", min: 60,
		rule: "content, size, mode and times of image and metadata compared around every command, successful and refused, with read-only inputs and concurrent readers whose outputs are compared with lone ones"}
	checks["C29"] = checkDef{fn: checkC29, level: "exploration", min: 5000,
		rule: "dump-index of metadata files of many sizes compared line by line with the sorted model; an evaluation is one record"}
}

var blockSizes = []uint64{4096, 8192, 16384, 32768, 65536}

func sizeFor(r *rand.Rand, bs uint64, extraMB int) uint64 {
	s := minImageSize(bs)
	s = (s + region - 1) / region * region
	return s + uint64(r.Intn(1+extraMB))<<20
}

// farSize is the size of a large (sparse) image.
func farSize(r *rand.Rand) uint64 {
	return []uint64{2<<30 + 5*region, 4<<30 + 3*region, 9 << 30}[r.Intn(3)] + uint64(r.Intn(1<<14))*region
}

func reconArgs(bs uint64, fsid fmt.Stringer, meta, img string) []string {
	return []string{"recon", "-p=false", "--block-size", fmt.Sprint(bs), "--id", fsid.String(), "--metadata", meta, img}
}

// recon runs a scan that must succeed.
func (c *Check) recon(bs uint64, fsid fmt.Stringer, meta, img string) bool {
	r := c.cli(runOpts{cpu: 120}, reconArgs(bs, fsid, meta, img)...)
	if r.Code != 0 {
		c.violated("scan of a valid image failed: %v", r)
		return false
	}
	return true
}

func wantState(m map[recKey]Rec) c28state {
	out := c28state{}
	for k, v := range m {
		out[k] = v.Data
	}
	return out
}

// readIndex opens an index for reading and returns all records.
func (c *Check) readIndex(what, path string) (s c28state, ok bool) {
	ok = c.guard(what, func() {
		ix := openROv(c, what, path)
		if ix == nil {
			return
		}
		// A damaged file could yield records forever.
		out, last := c28state{}, []byte(nil)
		for r, d := ix.FullRange(); r.HasNext(); d = r.Next() {
			k := mkey(r.Key())
			at := binary.BigEndian.AppendUint64(nil, r.Owner())
			at = append(at, k.Type)
			at = binary.BigEndian.AppendUint64(at, k.Obj)
			at = binary.BigEndian.AppendUint64(at, k.Off)
			at = binary.BigEndian.AppendUint64(at, r.Generation())
			if last != nil && bytes.Compare(last, at) >= 0 {
				c.violated("%s: the records of the index are not in ascending order: %x follows %x", what, at, last)
				return
			}
			last = at
			if h := mkey(r.Item().Key()); h != k {
				c.violated("%s: the record of %v has an item with key %v", what, k, h)
				return
			}
			out[recKey{r.Owner(), k, r.Generation()}] = append([]byte{}, d...)
		}
		s = out
		ix.Close()
	}) && s != nil
	return
}

func randItemSize(r *rand.Rand, t uint8, max int) int {
	min := 0
	switch t {
	case tInodeItem:
		min = 160
	case tXattr, tDirItem, tDirIndex:
		min = 30
	case tExtentData:
		min = 53
	case tChunkItem:
		min = 80
	}
	switch r.Intn(6) {
	case 0:
		return min
	case 1:
		if max > min {
			return min + r.Intn(max-min+1)
		}
	}
	if r.Intn(12) == 0 {
		return max
	}
	n := min + r.Intn(200)
	if n > max {
		n = max
	}
	return n
}

// customLeaf fills one leaf with arbitrary items under fresh keys.
func (fs *FS) customLeaf(phys uint64, used map[recKey]bool) {
	r := fs.r
	for ; fs.usedN < len(fs.Log); fs.usedN++ { // also those of generate
		for _, it := range fs.Log[fs.usedN].Items {
			used[recKey{it.Owner, it.Key, it.Gen}] = true
		}
	}
	owner := poolOwner[r.Intn(len(poolOwner))]
	gen := poolGen[r.Intn(len(poolGen))]
	if r.Intn(3) > 0 {
		gen = uint64(r.Intn(200))
	}
	free := int(fs.BS) - leafHdr
	var items []Rec
	n := 1 + r.Intn(40)
	style := r.Intn(5)
	if style == 0 {
		n = 1
	} else if style == 1 {
		n = 1 << 20 // as many empty items as fit
	}
	for len(items) < n {
		t := uint8(r.Intn(256))
		if r.Intn(2) == 0 {
			t = poolType[r.Intn(len(poolType))]
		}
		max := free - itemHdr
		sz := 0
		if style == 0 {
			sz = max
		} else if style == 1 {
			for t == tInodeItem || t == tXattr || t == tDirItem || t == tDirIndex || t == tExtentData || t == tChunkItem {
				t = uint8(r.Intn(256))
			}
		}
		if max < 160 && style != 1 || max < 0 {
			break
		}
		if style > 1 {
			sz = randItemSize(r, t, max)
		}
		inline := t == tExtentData && style > 1 && r.Intn(3) == 0
		if inline { // also no data at all
			sz = 21 + r.Intn(4)*r.Intn(12)
		}
		k := Key{poolObj[r.Intn(len(poolObj))], t, poolOff[r.Intn(len(poolOff))]}
		if r.Intn(2) == 0 {
			k.Obj, k.Off = r.Uint64()>>uint(r.Intn(64)), r.Uint64()>>uint(r.Intn(64))
		}
		rk := recKey{owner, k, gen}
		if used[rk] || owner == ^uint64(0) && gen == ^uint64(0) {
			continue
		}
		used[rk] = true
		d := make([]byte, sz)
		r.Read(d)
		if inline {
			d[20] = 0
		}
		items = append(items, Rec{Owner: owner, Key: k, Gen: gen, Data: d})
		free -= itemHdr + sz
	}
	sort.Slice(items, func(i, j int) bool { return items[i].Key.treeLess(items[j].Key) })
	fs.Log = append(fs.Log, Leaf{phys, owner, gen, items, buildLeaf(fs.FSID, fs.CTID, fs.BS, owner, gen, phys+r.Uint64()>>20, items, r)})
}

func checkC01(c *Check) {
	c.par(c.pick(56, 700), func(i int) {
		r := c.rng(i)
		bs := blockSizes[i%len(blockSizes)]
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		size := sizeFor(r, bs, 6)
		far := i%8 == 5
		if far {
			bs = blockSizes[2+r.Intn(3)]
			size = farSize(r)
			if i == 5 { // far enough for the third superblock
				bs = 65536
				size = superOff3 + uint64(3+r.Intn(9))*bs
			}
			c.count("large_devices", 1)
		}
		fs := newFS(r, bs, size)
		if i == 5 || r.Intn(2) == 0 {
			fs.LogRoot = uint64(r.Uint32()) << 12
		}
		used := map[recKey]bool{}
		big := i%14 == 13
		switch {
		case big: // more than one batch of the index
			for n := 0; n < 13000; {
				fs.customLeaf(fs.slot(), used)
				n += len(fs.Log[len(fs.Log)-1].Items)
			}
		case i%3 == 0:
			for n := 20 + r.Intn(100); n > 0; n-- {
				fs.customLeaf(fs.slot(), used)
			}
		default:
			generate(fs, genOpts{entries: 10 + r.Intn(60), subvols: r.Intn(4), gens: r.Intn(6), xattrs: true, specials: true, collide: true, wildNames: true})
		}
		// Neighbouring blocks with equal headers (stale copies of each other)
		// but other items, or the same keys in an other order of recording.
		for n := r.Intn(4); n > 0; n-- {
			at := fs.takeRegions(2)
			if bs > region {
				break
			}
			fs.customLeaf(at, used)
			a := fs.Log[len(fs.Log)-1]
			fs.customLeaf(at+bs, used)
			b := &fs.Log[len(fs.Log)-1]
			var items []Rec
			for _, it := range b.Items {
				it.Owner, it.Gen = a.Owner, a.Gen
				if k := (recKey{it.Owner, it.Key, it.Gen}); !used[k] {
					used[k] = true
					items = append(items, it)
				}
			}
			if len(items) == 0 {
				fs.Log = fs.Log[:len(fs.Log)-1]
				continue
			}
			b.Owner, b.Gen, b.Items = a.Owner, a.Gen, items
			b.Block = buildLeaf(fs.FSID, fs.CTID, bs, a.Owner, a.Gen, binary.LittleEndian.Uint64(a.Block[48:]), items, r)
			c.count("leaves_with_equal_headers", 1)
		}
		if i%4 == 2 { // an item under the key of the index's own record
			at := fs.slot()
			var items []Rec
			for n := r.Intn(4); n > 0; n-- {
				k := recKey{^uint64(0), Key{neg(uint64(257 + r.Intn(9))), []uint8{0, tOrphan, tExtentCsum, 254, 255}[r.Intn(5)], r.Uint64()}, ^uint64(0)}
				if !used[k] {
					used[k] = true
					items = append(items, Rec{Owner: k.Owner, Key: k.Key, Gen: k.Gen, Data: make([]byte, r.Intn(9))})
				}
			}
			all := append([]Rec{}, items...)
			all = append(all, Rec{Owner: ^uint64(0), Key: Key{neg(256), 255, ^uint64(0)}, Gen: ^uint64(0), Data: make([]byte, r.Intn(90))})
			if k := (recKey{^uint64(0), Key{neg(1), 255, 9}, ^uint64(0)}); r.Intn(2) == 0 && !used[k] { // and one behind it
				used[k] = true
				items = append(items, Rec{Owner: k.Owner, Key: k.Key, Gen: k.Gen, Data: []byte("behind")})
				all = append(all, items[len(items)-1])
			}
			fs.Log = append(fs.Log, Leaf{at, ^uint64(0), ^uint64(0), items, buildLeaf(fs.FSID, fs.CTID, bs, ^uint64(0), ^uint64(0), at, all, r)})
			c.count("items_under_the_reserved_key", 1)
		}
		// The image's own borders: the first block scanned, the last full one,
		// one before the scanned area.
		tailLen := (r.Intn(3) + 1) / 2 * r.Intn(int(bs))
		img := imgOpts{size: size + uint64(tailLen)}
		if tailLen > 0 {
			// A leaf that is cut off at the end of the device
			fs2 := &FS{r: r, FSID: fs.FSID, CTID: fs.CTID, BS: bs}
			fs2.customLeaf(0, map[recKey]bool{})
			img.tail = fs2.Log[0].Block[:tailLen]
		}
		full := len(fs.Log)
		if r.Intn(4) > 0 {
			fs.customLeaf(superOff1+bs, used)
		}
		last := size - bs
		if r.Intn(4) > 0 {
			fs.customLeaf(last, used)
		}
		fs.customLeaf(superOff2+bs, used) // right behind the second superblock
		fs.customLeaf(superOff2-bs, used)
		if size > superOff3+2*bs {
			fs.customLeaf(superOff3-bs, used)
			fs.customLeaf(superOff3+bs, used)
		}
		full = len(fs.Log)
		fs.customLeaf(0, used)
		if bs < superOff1 {
			fs.customLeaf(superOff1-bs, used)
		}
		if bs > 4096 && r.Intn(2) == 0 { // not aligned to the block size
			fs.customLeaf(fs.takeRegions(2)+4096*uint64(1+r.Intn(int(bs/4096)-1)), used)
		}
		var in []int
		for j := 0; j < full; j++ {
			in = append(in, j)
		}
		img.noise = fs.noise(10 + r.Intn(60))
		path := filepath.Join(d, "img")
		fs.writeImage(path, img)
		want := wantState(fs.records(in))
		meta := filepath.Join(d, "meta")
		o := runOpts{cpu: 120}
		args := reconArgs(bs, fs.FSID, meta, path)
		switch r.Intn(5) {
		case 0:
			args = []string{"recon", "--block-size", fmt.Sprint(bs), "--id", strings.ToUpper(fs.FSID.String()), path}
			o.env = []string{"BTRFSCUE_METADATA=" + meta}
		case 1:
			args = append(args, "--append", "-v")
		case 2:
			args[1] = "-p=true"
		}
		res := c.cli(o, args...)
		if res.Code != 0 {
			c.violated("case %d (%s): the scan failed: %v", i, fs.describe(), res)
			return
		}
		got, ok := c.readIndex(fmt.Sprintf("case %d: reading the index", i), meta)
		if !ok {
			return
		}
		if df := diffState(got, want); df != "" {
			c.violated("case %d (%s): after the scan, %s\n(recorded %d, expected %d records; %s)", i, fs.describe(), df, len(got), len(want), c.whereOf(fs, got, want))
			return
		}
		c.count("evaluations", len(want))
		c.count("images", 1)
		c.count("blocks_not_to_record", len(img.noise)+len(fs.Log)-full)
		for _, n := range img.noise {
			c.seen("noise_kind", n.Kind)
		}
		for k := range want {
			c.seen("case", bs, k.Key.Type, len(want[k])&^63, k.Owner)
		}
		c.seen("block_size", bs)
		if i < 3 {
			c.sample(map[string]any{"image": fs.describe(), "records": len(want), "trailing bytes": tailLen, "extra blocks": len(img.noise)})
		}
	})
}

// whereOf describes the leaf of the first differing record.
func (c *Check) whereOf(fs *FS, got, want c28state) string {
	for _, l := range fs.Log {
		for _, it := range l.Items {
			k := recKey{it.Owner, it.Key, it.Gen}
			g, ok := got[k]
			w, ok2 := want[k]
			if ok != ok2 || !bytes.Equal(g, w) {
				return fmt.Sprintf("leaf at %#x of %d items", l.Phys, len(l.Items))
			}
		}
	}
	return "from no leaf of this file system"
}

func checkC02(c *Check) {
	c.par(c.pick(18, 250), func(i int) {
		r := c.rng(i)
		bs := blockSizes[r.Intn(3)]
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		fs := newFS(r, bs, sizeFor(r, bs, 3))
		generate(fs, genOpts{entries: 20 + r.Intn(50), subvols: 2, gens: 4, xattrs: true, specials: true, collide: true})
		other := newFS(r, bs, fs.Size)
		generate(other, genOpts{entries: 15, subvols: 1, gens: 1})
		noise := fs.noise(10)
		nimg := 2 + r.Intn(3)
		parts := make([][]int, nimg)
		paths := make([]string, nimg)
		for j := range fs.Log {
			done := false
			for k := range parts {
				if r.Intn(nimg) == 0 {
					parts[k] = append(parts[k], j)
					done = true
				}
			}
			if !done {
				k := r.Intn(nimg)
				parts[k] = append(parts[k], j)
			}
		}
		for k := range parts {
			paths[k] = filepath.Join(d, fmt.Sprint("img", k))
			if parts[k] == nil {
				parts[k] = []int{}
			}
			fs.writeImage(paths[k], imgOpts{leaves: parts[k], noise: noise, noSuper: r.Intn(2) == 0, skipData: true})
			if r.Intn(2) == 0 { // an image that holds a second file system as well
				f, err := os.OpenFile(paths[k], os.O_WRONLY, 0)
				must(err)
				usedAt := map[uint64]bool{}
				for _, l := range fs.Log {
					usedAt[l.Phys] = true
				}
				for _, l := range noise {
					usedAt[l.Phys] = true
				}
				for _, l := range other.Log {
					if !usedAt[l.Phys] {
						f.WriteAt(l.Block, int64(l.Phys))
					}
				}
				f.Close()
			}
		}
		foreign := filepath.Join(d, "foreign")
		other.writeImage(foreign, imgOpts{skipData: true})
		meta := filepath.Join(d, "meta")
		union := c28state{}
		var hist []string
		steps := nimg + 3 + r.Intn(4)
		order := r.Perm(nimg)
		empty := r.Intn(2) == 0
		if empty { // the first scan records nothing
			p := filepath.Join(d, "imgE")
			fs.writeImage(p, imgOpts{leaves: []int{}, noise: noise, noSuper: r.Intn(2) == 0, skipData: true})
			paths, parts = append(paths, p), append(parts, []int{})
			order = append([]int{nimg}, order...)
			nimg++
			steps++
		}
		for s := 0; s < steps && !c.failed(); s++ {
			k := order[s%nimg]
			if s >= nimg && r.Intn(2) == 0 {
				k = r.Intn(nimg)
			}
			kind := r.Intn(6)
			if s == 0 {
				kind = 5
			} else if s == 1 && empty && i%3 > 0 {
				kind = i % 2
				order[s+1], order[s] = order[s], order[s+1]
			}
			before, _ := os.ReadFile(meta)
			switch kind {
			case 0: // another file system, which the image may even hold
				hist = append(hist, "other id")
				img := paths[k]
				if r.Intn(2) == 0 {
					img = foreign
				}
				id := other.FSID
				if r.Intn(2) == 0 {
					id = fs.FSID
					id[r.Intn(16)] ^= 1 << r.Intn(8)
				}
				res := c.cli(runOpts{}, reconArgs(bs, id, meta, img)...)
				if res.Code == 0 {
					c.violated("case %d after %v: a scan for another filesystem id was not refused: %v", i, hist, res)
				}
			case 1: // another block size
				hist = append(hist, "other block sizes")
				obs := []uint64{bs * 2, bs / 2, bs + 512, bs + 1, bs - 1, bs + 65536, bs + 1<<20, bs + 1<<24, bs + 1<<16*uint64(1+r.Intn(200))}
				for _, k := range r.Perm(len(obs))[:4] {
					// Large enough, so that this is no reason to refuse it
					img := paths[k%len(paths)]
					if fi, err := os.Stat(img); err == nil && obs[k] < 1<<24 && uint64(fi.Size()) < minImageSize(obs[k]) {
						must(os.Truncate(img, int64(minImageSize(obs[k]))))
					}
					res := c.cli(runOpts{}, reconArgs(obs[k], fs.FSID, meta, img)...)
					c.count("other_block_sizes", 1)
					if res.Code == 0 {
						c.violated("case %d after %v: a scan with block size %d instead of %d was not refused: %v", i, hist, obs[k], bs, res)
					}
				}
			default:
				hist = append(hist, fmt.Sprint("image ", k))
				a := reconArgs(bs, fs.FSID, meta, paths[k])
				if r.Intn(3) == 0 {
					a = append(a, "--append")
				}
				res := c.cli(runOpts{cpu: 120}, a...)
				if res.Code != 0 {
					c.violated("case %d after %v: the scan failed: %v", i, hist, res)
				}
				for rk, v := range wantState(fs.records(parts[k])) {
					union[rk] = v
				}
			}
			got, ok := c.readIndex(fmt.Sprintf("case %d after %v", i, hist), meta)
			if !ok {
				return
			}
			if df := diffState(got, union); df != "" {
				c.violated("case %d (%s) after %v: %s", i, fs.describe(), hist, df)
			}
			after, _ := os.ReadFile(meta)
			if kind < 2 && !bytes.Equal(before, after) {
				// Only the recorded items count, but note the difference.
				c.count("refused_scans_that_rewrote_file_bytes", 1)
			}
			c.count("evaluations", 1)
			c.seen("case", i, strings.Join(hist, ","))
		}
		if i < 3 {
			c.sample(map[string]any{"history": hist, "records": len(union), "block size": bs})
		}
	})
}

// --- C03: crash states

type fop struct {
	kind string // write, trunc, sync, close
	off  int64
	data []byte
	n    int64
}

// straceOps parses the operations on one file out of a trace.
func straceOps(trace []byte, path string) (ops []fop, unknown []string) {
	sc := bufio.NewScanner(bytes.NewReader(trace))
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	pend := map[string]string{}
	hexPath := ""
	for _, b := range []byte(path) {
		hexPath += fmt.Sprintf("\\x%02x", b)
	}
	line := regexp.MustCompile(`^(\d+)\s+(.*)$`)
	for sc.Scan() {
		m := line.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		pid, s := m[1], m[2]
		if strings.HasSuffix(s, "<unfinished ...>") {
			pend[pid] = strings.TrimSuffix(s, "<unfinished ...>")
			continue
		}
		if strings.HasPrefix(s, "<... ") {
			if j := strings.Index(s, "resumed>"); j >= 0 {
				s = pend[pid] + s[j+8:]
				delete(pend, pid)
			}
		}
		if !strings.Contains(s, "<"+hexPath+">") {
			continue
		}
		j := strings.IndexByte(s, '(')
		if j < 0 {
			continue
		}
		call := s[:j]
		eq := strings.LastIndex(s, " = ")
		ret := int64(-1)
		if eq >= 0 {
			f := strings.Fields(s[eq+3:])
			if len(f) > 0 {
				if k := strings.IndexByte(f[0], '<'); k > 0 {
					f[0] = f[0][:k]
				}
				ret, _ = strconv.ParseInt(f[0], 0, 64)
			}
		}
		if ret < 0 {
			continue
		}
		args := s[j+1 : eq]
		switch call {
		case "pwrite64":
			q1 := strings.IndexByte(args, '"')
			q2 := strings.LastIndexByte(args, '"')
			b := unhexS(args[q1+1 : q2])
			rest := strings.Split(strings.TrimRight(strings.TrimSpace(args[q2+1:]), ")"), ",")
			off, err := strconv.ParseInt(strings.TrimSpace(rest[2]), 10, 64)
			must(err)
			if int64(len(b)) < ret {
				panic("harness: truncated trace")
			}
			ops = append(ops, fop{kind: "write", off: off, data: b[:ret]})
		case "ftruncate":
			f := strings.Split(strings.TrimRight(strings.TrimSpace(args), ")"), ",")
			n, err := strconv.ParseInt(strings.TrimSpace(f[len(f)-1]), 10, 64)
			must(err)
			ops = append(ops, fop{kind: "trunc", n: n})
		case "fdatasync", "fsync":
			ops = append(ops, fop{kind: "sync"})
		case "openat", "close", "flock", "fstat", "pread64", "read", "lseek", "mmap", "newfstatat", "fcntl", "epoll_ctl", "madvise", "munmap", "statx":
			if call == "openat" && strings.Contains(s, "O_TRUNC") {
				ops = append(ops, fop{kind: "trunc", n: 0})
			}
		case "write", "writev", "pwritev", "pwritev2", "fallocate", "sync_file_range", "copy_file_range", "sendfile":
			unknown = append(unknown, call)
		default:
			unknown = append(unknown, call)
		}
	}
	return
}

func unhexS(s string) []byte {
	out := make([]byte, 0, len(s)/4)
	for i := 0; i+3 < len(s); i += 4 {
		if s[i] != '\\' || s[i+1] != 'x' {
			panic("harness: unexpected string in trace: " + s[i:min(len(s), i+40)])
		}
		v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
		must(err)
		out = append(out, byte(v))
	}
	return out
}

// disk is file content under construction.
type disk []byte

func (d *disk) write(off int64, b []byte) {
	if n := off + int64(len(b)); n > int64(len(*d)) {
		*d = append(*d, make([]byte, n-int64(len(*d)))...)
	}
	copy((*d)[off:], b)
}

func (d *disk) trunc(n int64) {
	if n <= int64(len(*d)) {
		*d = (*d)[:n:n]
	} else {
		*d = append(*d, make([]byte, n-int64(len(*d)))...)
	}
}

func (d disk) clone() disk { return append(disk{}, d...) }

func applyOp(d *disk, o fop) {
	switch o.kind {
	case "write":
		d.write(o.off, o.data)
	case "trunc":
		d.trunc(o.n)
	}
}

// applyPart applies a random subset of the 4 KiB pages of pending operations.
func applyPart(r *rand.Rand, d *disk, pend []fop, prob int) (kept int) {
	for _, o := range pend {
		if o.kind == "trunc" {
			if r.Intn(100) < prob {
				applyOp(d, o)
				kept++
			}
			continue
		}
		for p := int64(0); p < int64(len(o.data)); {
			n := 4096 - (o.off+p)%4096
			if p+n > int64(len(o.data)) {
				n = int64(len(o.data)) - p
			}
			if r.Intn(100) < prob {
				d.write(o.off+p, o.data[p:p+n])
				kept++
			}
			p += n
		}
	}
	return
}

type crashState struct {
	what string
	b    disk
}

func checkC03(c *Check) {
	n := c.pick(4, 24)
	for i := 0; i < n && !c.failed(); i++ {
		if c.only >= 0 && c.only != i {
			continue
		}
		c.crashTrace(i)
	}
	c.par(c.pick(24, 400), func(i int) { c.crashKill(1000 + i) })
	c.par(c.pick(96, 1500), func(i int) { c.writeFault(5000 + i) })
}

// writeFault lets system calls of a scan fail. It may then fail, but not claim
// success, and must leave the metadata file intact.
func (c *Check) writeFault(i int) {
	r := c.rng(i)
	bs := []uint64{16384, 4096}[i%2]
	d := c.dir(fmt.Sprint("w", i))
	defer os.RemoveAll(d)
	fs := bigFS(r, bs, []int{200, 11000, 23000}[i%3])
	img, img0 := filepath.Join(d, "img"), filepath.Join(d, "img0")
	fs.writeImage(img, imgOpts{skipData: true})
	all := wantState(fs.records(nil))
	meta := filepath.Join(d, "meta")
	base := c28state{}
	if r.Intn(4) > 0 {
		fs.writeImage(img0, imgOpts{skipData: true, leaves: []int{r.Intn(len(fs.Log))}})
		if !c.recon(bs, fs.FSID, meta, img0) {
			return
		}
		os.Remove(img0)
		base, _ = c.readIndex("before", meta)
	}
	call := []string{"pwrite64", "pwrite64", "pwrite64", "fdatasync", "ftruncate", "pwrite64,fdatasync,ftruncate,fsync"}[r.Intn(6)]
	errno := []string{"ENOSPC", "EIO", "EDQUOT"}[r.Intn(3)]
	when := fmt.Sprint(1 + r.Intn(1<<uint(1+r.Intn([]int{5, 8, 10}[i%3]))))
	if strings.HasPrefix(call, "f") {
		when = fmt.Sprint(1 + r.Intn([]int{3, 7, 10}[i%3]))
	}
	if r.Intn(2) == 0 {
		when += "+"
	}
	tr := filepath.Join(d, "trace")
	inject := fmt.Sprintf("inject=%s:error=%s:when=%s", call, errno, when)
	what := fmt.Sprintf("case %d: scan of %d items with %s", i, len(all), inject)
	res := c.run(runOpts{cpu: 120, prefix: []string{"strace", "-f", "-qq", "-o", tr, "-e", "trace=" + call, "-e", inject}}, reconArgs(bs, fs.FSID, meta, img)...)
	trace, err := os.ReadFile(tr)
	must(err)
	hit := bytes.Count(trace, []byte("(INJECTED)"))
	c.count("faults_injected", hit)
	if hit > 0 {
		c.count("scans_with_write_faults", 1)
	}
	if res.crash() != "" {
		c.violated("%s: the scan crashed instead of reporting the error: %v", what, res)
		return
	}
	if hit == 0 && res.Code != 0 {
		c.violated("%s: failed although no fault occurred: %v", what, res)
		return
	}
	c.count("evaluations", 1)
	c.seen("case", i, inject, res.Code)
	if res.Code != 0 && len(base) == 0 && !opensRO(meta) {
		return // Never initialised
	}
	got, ok := c.readIndex(what, meta)
	if !ok {
		return
	}
	if res.Code == 0 {
		if df := diffState(got, all); df != "" {
			c.violated("%s: exited successfully, but: %s (%d faults)", what, df, hit)
		}
		return
	}
	c.count("scans_failed_by_faults", 1)
	if df := subsetOf(got, all); df != "" {
		c.violated("%s: failed and left: %s", what, df)
		return
	}
	if df := subsetOf(base, got); df != "" {
		c.violated("%s: failed and lost what was recorded before: %s", what, df)
		return
	}
	if !c.recon(bs, fs.FSID, meta, img) {
		return
	}
	if got, ok := c.readIndex(what+", then scanned again", meta); ok {
		if df := diffState(got, all); df != "" {
			c.violated("%s, then scanned again: %s", what, df)
		}
	}
}

// bigFS makes a file system of more items than one batch of the index.
func bigFS(r *rand.Rand, bs uint64, items int) *FS {
	fs := newFS(r, bs, sizeFor(r, bs, 2))
	used := map[recKey]bool{}
	owner := func() uint64 { return []uint64{1, 2, 5, 7, 256, 257}[r.Intn(6)] }
	n := 0
	for n < items {
		o, g := owner(), uint64(5+r.Intn(40))
		var its []Rec
		free := int(bs) - leafHdr
		for free > 200 {
			sz := r.Intn(60)
			k := Key{uint64(256 + r.Intn(5000)), []uint8{tInodeRef, tExtentCsum, tRootRef, tOrphan}[r.Intn(4)], uint64(r.Intn(1 << 20))}
			rk := recKey{o, k, g}
			if used[rk] {
				continue
			}
			used[rk] = true
			d := make([]byte, sz)
			r.Read(d)
			its = append(its, Rec{Owner: o, Key: k, Gen: g, Data: d})
			free -= itemHdr + sz
		}
		sort.Slice(its, func(i, j int) bool { return its[i].Key.treeLess(its[j].Key) })
		p := fs.slot()
		fs.Log = append(fs.Log, Leaf{p, o, g, its, buildLeaf(fs.FSID, fs.CTID, bs, o, g, p, its, r)})
		n += len(its)
	}
	return fs
}

func subsetOf(got, all c28state) string {
	for k, v := range got {
		w, ok := all[k]
		if !ok {
			return fmt.Sprintf("record %d %v @%d is not of the image", k.Owner, k.Key, k.Gen)
		}
		if !bytes.Equal(v, w) {
			return fmt.Sprintf("record %d %v @%d is %.60q instead of %.60q", k.Owner, k.Key, k.Gen, v, w)
		}
	}
	return ""
}

func (c *Check) crashTrace(i int) {
	r := c.rng(i)
	bs := []uint64{16384, 4096, 8192}[i%3]
	d := c.dir(fmt.Sprint("t", i))
	defer os.RemoveAll(d)
	items := []int{24000, 300, 11000, 45000}[i%4]
	fs := bigFS(r, bs, items)
	img := filepath.Join(d, "img")
	fs.writeImage(img, imgOpts{skipData: true})
	all := wantState(fs.records(nil))
	meta := filepath.Join(d, "meta")
	var start disk
	if i%4 == 3 { // the file exists and already holds part of the image
		p0 := filepath.Join(d, "img0")
		var some []int
		for j := range fs.Log {
			if r.Intn(3) == 0 {
				some = append(some, j)
			}
		}
		fs.writeImage(p0, imgOpts{skipData: true, leaves: some})
		if !c.recon(bs, fs.FSID, meta, p0) {
			return
		}
		b, err := os.ReadFile(meta)
		must(err)
		start = b
	}
	tr := filepath.Join(d, "trace")
	res := c.cli(runOpts{cpu: 200, prefix: []string{"strace", "-f", "-qq", "-y", "-xx", "-s", "100000000", "-o", tr,
		"-e", "trace=pwrite64,write,writev,pwritev,pwritev2,ftruncate,fdatasync,fsync,openat,fallocate,copy_file_range,sync_file_range,mmap"}}, reconArgs(bs, fs.FSID, meta, img)...)
	if res.Code != 0 {
		c.violated("trace %d: the scan failed: %v", i, res)
		return
	}
	trace, err := os.ReadFile(tr)
	must(err)
	os.Remove(tr)
	ops, unknown := straceOps(trace, meta)
	if len(unknown) > 0 {
		panic(fmt.Sprintf("harness: trace has file operations that the model does not know: %v", unknown))
	}
	final, err := os.ReadFile(meta)
	must(err)
	// The model of the file must agree with the real file.
	sim := start.clone()
	syncs, writes := 0, 0
	for _, o := range ops {
		applyOp(&sim, o)
		switch o.kind {
		case "sync":
			syncs++
		case "write":
			writes++
		}
	}
	if !bytes.Equal(sim, final) {
		panic(fmt.Sprintf("harness: replaying the trace of %d operations does not give the file (%d and %d bytes)", len(ops), len(sim), len(final)))
	}
	c.count("traced_writes", writes)
	c.count("traced_syncs", syncs)
	// Find the first synced state that opens: the file is initialised.
	scratch := func(w int) string { return filepath.Join(d, fmt.Sprint("s", w)) }
	durable := start.clone()
	initAt := -1
	if start != nil {
		initAt = 0
	} else {
		for j, o := range ops {
			applyOp(&durable, o)
			if o.kind == "sync" {
				must(os.WriteFile(scratch(0), durable, 0644))
				if opensRO(scratch(0)) {
					initAt = j + 1
					break
				}
			}
		}
		if initAt < 0 {
			c.violated("trace %d: no synced state of the metadata file opens during the scan (%d writes, %d syncs), so nothing recorded was durable before or at its end", i, writes, syncs)
			return
		}
	}
	// After success everything is durable.
	durable = start.clone()
	lastSync := 0
	for j, o := range ops {
		if o.kind == "sync" {
			for _, p := range ops[lastSync : j+1] {
				applyOp(&durable, p)
			}
			lastSync = j + 1
		}
	}
	must(os.WriteFile(scratch(0), durable, 0644))
	got, ok := c.readIndex(fmt.Sprintf("trace %d: state of the file after a successful scan and a power loss", i), scratch(0))
	if !ok {
		return
	}
	if df := diffState(got, all); df != "" {
		c.violated("trace %d: after the scan had exited successfully, a power loss that loses what was not synced leaves: %s (%d of %d records; %d writes behind the last sync)", i, df, len(got), len(all), len(ops)-lastSync)
		return
	}
	// Crash points
	budget := c.pick(160, 2600)
	var points []int
	nearSync := map[int]bool{}
	for j := initAt; j <= len(ops); j++ {
		if j > 0 && ops[j-1].kind != "write" || j < len(ops) && ops[j].kind != "write" || j > 1 && ops[j-2].kind == "sync" {
			nearSync[j] = true
		}
	}
	for j := initAt; j <= len(ops); j++ {
		if nearSync[j] {
			points = append(points, j)
		}
	}
	if len(points) > budget/2 {
		r.Shuffle(len(points), func(a, b int) { points[a], points[b] = points[b], points[a] })
		points = points[:budget/2]
	}
	for len(points) < budget {
		points = append(points, initAt+r.Intn(len(ops)-initAt+1))
	}
	sort.Ints(points)
	// Generate states in order, judge them on workers.
	ch := make(chan crashState, 16)
	var wg sync.WaitGroup
	for w := 1; w <= 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			debug.SetPanicOnFault(true)
			for s := range ch {
				c.judgeCrash(i, bs, fs, img, scratch(w), s, all, w)
			}
		}(w)
	}
	durable, lastSync = start.clone(), 0
	pi := 0
	for j := 0; j <= len(ops); j++ {
		for pi < len(points) && points[pi] == j {
			pi++
			pend := ops[lastSync:j]
			st := durable.clone()
			what := fmt.Sprintf("power loss after operation %d of %d, ", j, len(ops))
			switch v := r.Intn(6); {
			case v == 0 || len(pend) == 0:
				what += "all unsynced writes lost"
			case v == 1:
				for _, o := range pend {
					applyOp(&st, o)
				}
				what = fmt.Sprintf("process killed after operation %d of %d", j, len(ops))
			case v == 2:
				k := r.Intn(len(pend))
				applyOp(&st, pend[k])
				what += fmt.Sprintf("only unsynced operation %d of %d kept", k, len(pend))
			case v == 3:
				k := len(pend) - 1
				applyOp(&st, pend[k])
				what += "only the last unsynced operation kept"
			default:
				prob := []int{10, 50, 90, 97}[r.Intn(4)]
				k := applyPart(r, &st, pend, prob)
				what += fmt.Sprintf("%d pages of %d unsynced operations kept", k, len(pend))
			}
			ch <- crashState{what, st}
		}
		if j < len(ops) {
			if ops[j].kind == "sync" {
				for _, o := range ops[lastSync : j+1] {
					applyOp(&durable, o)
				}
				lastSync = j + 1
			}
		}
	}
	close(ch)
	wg.Wait()
	c.count("evaluations", 1)
	c.sample(map[string]any{"trace": i, "items": len(all), "writes": writes, "syncs": syncs, "crash states": len(points)})
}

func opensRO(path string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	ix := tryRO(path)
	if ix == nil {
		return false
	}
	ix.Close()
	return true
}

func (c *Check) judgeCrash(i int, bs uint64, fs *FS, img, path string, s crashState, all c28state, w int) {
	if c.failed() {
		return
	}
	must(os.WriteFile(path, s.b, 0644))
	got, ok := c.readIndex(fmt.Sprintf("trace %d: %s", i, s.what), path)
	if !ok {
		return
	}
	if df := subsetOf(got, all); df != "" {
		c.violated("trace %d: %s: %s", i, s.what, df)
		return
	}
	c.count("evaluations", 1)
	c.count("crash_states", 1)
	c.seen("case", i, len(got), sha256.Sum256(s.b))
	c.seen("surviving_record_count", i, len(got))
	// Complete it by another scan.
	h := sha256.Sum256(s.b)
	if int(h[0])%c.pick(4, 8) == 0 {
		if !c.recon(bs, fs.FSID, path, img) {
			return
		}
		got, ok := c.readIndex(fmt.Sprintf("trace %d: %s, then completed", i, s.what), path)
		if !ok {
			return
		}
		if df := diffState(got, all); df != "" {
			c.violated("trace %d: %s, then scanned again: %s", i, s.what, df)
		}
		c.count("completions", 1)
	}
}

// crashKill kills a real scan.
func (c *Check) crashKill(i int) {
	r := c.rng(i)
	bs := []uint64{16384, 4096}[i%2]
	d := c.dir(fmt.Sprint("k", i))
	defer os.RemoveAll(d)
	fs := bigFS(r, bs, 23000)
	img, img0 := filepath.Join(d, "img"), filepath.Join(d, "img0")
	fs.writeImage(img, imgOpts{skipData: true})
	all := wantState(fs.records(nil))
	meta := filepath.Join(d, "meta")
	fs.writeImage(img0, imgOpts{skipData: true, leaves: []int{r.Intn(len(fs.Log))}})
	if !c.recon(bs, fs.FSID, meta, img0) {
		return
	}
	os.Remove(img0)
	base, _ := c.readIndex("before", meta)
	killed := 0
	for k := 0; k < 6; k++ {
		cmd := exec.Command(c.Bin, reconArgs(bs, fs.FSID, meta, img)...)
		cmd.Dir = d
		var er bytes.Buffer
		cmd.Stderr = &er
		must(cmd.Start())
		delay := time.Duration(5+r.Intn(95)) * time.Millisecond
		t := time.AfterFunc(delay, func() { cmd.Process.Signal(syscall.SIGKILL) })
		cmd.Wait()
		t.Stop()
		ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			killed++
		} else if ws.ExitStatus() != 0 {
			c.violated("kill %d: a repeated scan failed: %s", i, er.Bytes())
			return
		}
		got, ok := c.readIndex(fmt.Sprintf("kill %d after %v", i, delay), meta)
		if !ok {
			return
		}
		if df := subsetOf(got, all); df != "" {
			c.violated("kill %d after %v: %s", i, delay, df)
			return
		}
		for rk, v := range base {
			if !bytes.Equal(got[rk], v) {
				c.violated("kill %d after %v: record %v from before the interrupted scan is lost", i, delay, rk)
				return
			}
		}
		base = got
		c.count("evaluations", 1)
		c.seen("surviving_record_count", i, len(got))
		c.seen("case", i, k, len(got))
		if len(got) == len(all) {
			break
		}
	}
	c.count("scans_killed", killed)
	if !c.recon(bs, fs.FSID, meta, img) {
		return
	}
	got, ok := c.readIndex("after completing", meta)
	if ok {
		if df := diffState(got, all); df != "" {
			c.violated("kill %d: scanned again after kills: %s", i, df)
		}
	}
}

// --- C04

type fileState struct {
	Sum   [32]byte
	Size  int64
	Mode  uint32
	Mtime int64
	Ino   uint64
	UID   uint32
	Nlink uint64
}

func stateOf(path string) fileState {
	var st syscall.Stat_t
	must(syscall.Lstat(path, &st))
	b, err := os.ReadFile(path)
	must(err)
	return fileState{sha256.Sum256(b), st.Size, st.Mode, st.Mtim.Nano(), st.Ino, st.Uid, uint64(st.Nlink)}
}

func checkC04(c *Check) {
	c.par(c.pick(8, 80), func(i int) {
		r := c.rng(i)
		bs := blockSizes[r.Intn(3)]
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		must(os.Chmod(d, 0755))
		fs := newFS(r, bs, sizeFor(r, bs, 1))
		generate(fs, genOpts{entries: 40, subvols: 2, orphans: 1, gens: 3, xattrs: true, specials: true})
		in := c.dir(fmt.Sprint("c", i, "/in"))
		img := filepath.Join(in, "img")
		fs.writeImage(img, imgOpts{})
		meta := filepath.Join(in, "meta")
		old := time.Unix(1500000000, 12345)
		must(os.Chtimes(img, old, old))
		must(os.Chmod(img, 0444))
		i0 := stateOf(img)
		cmpImg := func(what string, res Res) {
			if s := stateOf(img); s != i0 {
				c.violated("case %d: %s changed the image: %+v -> %+v: %v", i, what, i0, s, res)
			}
			c.count("evaluations", 1)
			c.seen("case", i, what)
		}
		o := runOpts{cpu: 120}
		res := c.cli(o, "identify", "-p=false", "--block-size", fmt.Sprint(bs), img)
		cmpImg("identify", res)
		res = c.cli(o, reconArgs(bs, fs.FSID, meta, img)...)
		cmpImg("recon", res)
		if res.Code != 0 {
			c.violated("case %d: scan failed: %v", i, res)
			return
		}
		res = c.cli(o, append(reconArgs(bs, fs.FSID, meta, img), "--append")...)
		cmpImg("second recon", res)
		res = c.cli(o, reconArgs(bs*2, fs.FSID, meta, img)...)
		cmpImg("refused recon", res)

		// Readers, with nothing writable for their user except the
		// destination.
		must(os.Chtimes(meta, old, old))
		must(os.Chmod(meta, 0444))
		must(os.Chmod(in, 0555))
		m0 := stateOf(meta)
		uid := 0
		if r.Intn(2) == 0 {
			uid = 65534
		}
		ro := runOpts{cpu: 120, uid: uid, dir: "/"}
		dst := func(n int) string {
			p := c.dir(fmt.Sprint("c", i, "/dst", n))
			must(os.Chmod(p, 0777))
			return p
		}
		readers := [][]string{
			{"ls", "--metadata", meta}, {"ls", "--recursive", "--inode", "--metadata", meta, "/"},
			{"ls", "--metadata", meta, "/does/not/exist"}, {"dump-index", "--metadata", meta},
			{"recover", "--metadata", meta, img, "DST"}, {"recover", "--clobber", "-v", "--metadata", meta, img, "DST"},
			{"recover", "--metadata", meta, "/nonexistent", "DST"},
		}
		lone := make([]Res, len(readers))
		lists := make([]string, len(readers))
		runReader := func(k, n int) (Res, string) {
			a := append([]string{}, readers[k]...)
			p := ""
			if a[len(a)-1] == "DST" {
				p = dst(n)
				a[len(a)-1] = p
			}
			res := c.cli(ro, a...)
			l := ""
			if p != "" {
				l = treeSum(p)
				os.RemoveAll(p)
				res.Out = bytes.ReplaceAll(res.Out, []byte(p), []byte("DST"))
				res.Err = bytes.ReplaceAll(res.Err, []byte(p), []byte("DST"))
			}
			return res, l
		}
		before := listDir(in)
		for k := range readers {
			lone[k], lists[k] = runReader(k, k)
			if s := stateOf(meta); s != m0 {
				c.violated("case %d: a reader changed the metadata file: %+v -> %+v: %v", i, m0, s, lone[k])
			}
			cmpImg(fmt.Sprint("reader ", readers[k][0], k), lone[k])
			if k < 2 && lone[k].Code != 0 || k == 3 && lone[k].Code != 0 || k == 4 && lone[k].Code != 0 {
				c.violated("case %d: a reader of read-only inputs failed: %v", i, lone[k])
			}
			if c.failed() {
				return
			}
		}
		// Mounted meanwhile, twice
		var mounts []*kclient
		for n, a := range [][]string{{"--metadata", meta, img}, {"--metadata", meta}} {
			what := fmt.Sprintf("case %d: mount %v", i, a)
			var m *kmount
			func() {
				defer func() {
					if p := recover(); p != nil {
						if n > 0 && strings.Contains(fmt.Sprint(p), "did not get ready") {
							c.violated("%s did not start while another one uses the metadata file: %v", what, p)
							return
						}
						panic(p)
					}
				}()
				m = c.mustMount(what, c.dir(fmt.Sprint("c", i, "/m", n)), mountOpts{}, a...)
			}()
			if m == nil {
				return
			}
			defer m.kill()
			mounts = append(mounts, &kclient{c: c, m: m, v: fs.view(fs.records(nil)), what: what, nodev: n == 1, imgSize: fs.Size, quiet: true})
		}
		// Many at the same time, some held up by another open reader.
		hold := openROv(c, "holding reader", meta)
		if hold == nil {
			return
		}
		nn := c.pick(14, 40)
		var wg sync.WaitGroup
		gate := make(chan bool)
		for n := 0; n < nn; n++ {
			wg.Add(1)
			go func(n int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						if strings.Contains(fmt.Sprint(p), "wall-clock") {
							c.violated("case %d: reader %v did not end while other readers use the metadata file: %v", i, readers[n%len(readers)], p)
							return
						}
						panic(p)
					}
				}()
				<-gate
				k := n % len(readers)
				res, l := runReader(k, 100+n)
				if res.Code != lone[k].Code || !bytes.Equal(res.Out, lone[k].Out) || !bytes.Equal(res.Err, lone[k].Err) || l != lists[k] {
					c.violated("case %d: %v running with other readers differs from running alone:\n%v\n--- alone:\n%v", i, readers[k], res, lone[k])
				}
				c.count("concurrent_reader_runs", 1)
			}(n)
		}
		close(gate)
		wg.Wait()
		hold.Close()
		if s := stateOf(meta); s != m0 {
			c.violated("case %d: concurrent readers changed the metadata file: %+v -> %+v", i, m0, s)
		}
		cmpImg("concurrent readers", Res{})
		for _, k := range mounts {
			rt, ok := k.root()
			if !ok {
				return
			}
			for n, f := range k.treeWalk(r, rt) {
				if f.e.Type == ftReg && n < 20 && !k.stop.Load() {
					k.readFile(r, f, 2)
				}
			}
			k.m.finish(k.what, true)
			if s := stateOf(meta); s != m0 {
				c.violated("%s changed the metadata file: %+v -> %+v", k.what, m0, s)
			}
			cmpImg(k.what, Res{})
		}
		if after := listDir(in); fmt.Sprint(after) != fmt.Sprint(before) {
			c.violated("case %d: files appeared next to the inputs: %v -> %v", i, before, after)
		}
		must(os.Chmod(in, 0755))
		if i < 3 {
			c.sample(map[string]any{"image": fs.describe(), "user": uid, "readers": nn})
		}
	})
}

// treeSum is a textual snapshot of a tree: paths, kinds, modes, contents.
func treeSum(root string) string {
	var out []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			out = append(out, p+": "+err.Error())
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		s := fmt.Sprintf("%q %v", rel, fi.Mode())
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += fmt.Sprintf(" -> %q", t)
		case fi.Mode().IsRegular():
			s += fmt.Sprint(" ", fi.Size())
			if fi.Size() < 64<<20 {
				b, _ := os.ReadFile(p)
				s += fmt.Sprintf(" %x", sha256.Sum256(b))
			}
		}
		out = append(out, s)
		return nil
	})
	return strings.Join(out, "\n")
}

// --- C29

var objNames = map[string]uint64{"ROOT_TREE": 1, "EXTENT_TREE": 2, "CHUNK_TREE": 3, "DEV_TREE": 4, "FS_TREE": 5, "ROOT_TREE_DIR": 6,
	"CSUM_TREE": 7, "QUOTA_TREE": 8, "UUID": 9, "UUID_TREE": 9, "FREES_SPACE_TREE": 10, "FREE_SPACE_TREE": 10, "DEV_STATS": 0,
	"BALANCE": neg(4), "ORPHAN": neg(5), "TREE_LOG": neg(6), "TREE_LOG_FIXUP": neg(7), "TREE_RELOC": neg(8), "DATA_RELOC_TREE": neg(9),
	"EXTENT_CSUM": neg(10), "FREE_SPACE": neg(11), "FREE_INO": neg(12), "MULTIPLE": neg(255), "FIRST_FREE": 256, "LAST_FREE": neg(256)}

func neg(x uint64) uint64 { return -x }

var typeNames = map[string]uint64{"INODE_ITEM": 1, "INODE_REF": 12, "INODE_EXTREF": 13, "XATTR_ITEM": 24, "ORPHAN_ITEM": 48,
	"DIR_LOG_ITEM": 60, "DIR_LOG_INDEX": 72, "DIR_ITEM": 84, "DIR_INDEX": 96, "EXTENT_DATA": 108, "EXTENT_CSUM": 128, "ROOT_ITEM": 132,
	"ROOT_BACKREF": 144, "ROOT_REF": 156, "EXTENT_ITEM": 168, "METADATA_ITEM": 169, "TREE_BLOCK_REF": 176, "EXTENT_DATA_REF": 178,
	"EXTENT_REF_V0": 180, "SHARED_BLOCK_REF": 182, "SHARED_DATA_REF": 184, "BLOCK_GROUP_ITEM": 192, "FREE_SPACE_INFO": 198,
	"FREE_SPACE_EXTENT": 199, "FREE_SPACE_BITMAP": 200, "DEV_EXTENT": 204, "DEV_ITEM": 216, "CHUNK_ITEM": 228, "QGROUP_STATUS": 240,
	"QGROUP_INFO": 242, "QGROUP_LIMIT": 244, "QGROUP_RELATION": 246, "TEMPORARY_ITEM": 248, "PERSISTENT_ITEM": 249, "DEV_REPLACE": 250,
	"UUID_SUBVOL": 251, "UUID_RECEIVED_SUBVOL": 252, "STRING_ITEM": 253}

func numOrName(s string, m map[string]uint64) (uint64, error) {
	if v, ok := m[s]; ok {
		return v, nil
	}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		return uint64(v), nil
	}
	return strconv.ParseUint(s, 10, 64)
}

var dumpLine = regexp.MustCompile(`^\s*key \((\S+) (\S+) (-?\d+)\) @ (\d+)\s*$`)
var dumpOwner = regexp.MustCompile(`^owner (\d+)$`)

// parseDump reads a dump: the records in order, and the headings.
func parseDump(out []byte) (recs []recKey, heads []uint64, err error) {
	own, have := uint64(0), false
	lines := strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
	if len(out) == 0 {
		return
	}
	for n, l := range lines {
		if m := dumpOwner.FindStringSubmatch(l); m != nil {
			own, err = strconv.ParseUint(m[1], 10, 64)
			have = true
			heads = append(heads, own)
			continue
		}
		m := dumpLine.FindStringSubmatch(l)
		if m == nil {
			return nil, nil, fmt.Errorf("line %d is neither a record nor a heading: %q", n+1, l)
		}
		if !have {
			return nil, nil, fmt.Errorf("record %q has no owner heading", l)
		}
		var rk recKey
		rk.Owner = own
		var e1, e2, e3, e4 error
		var t uint64
		rk.Key.Obj, e1 = numOrName(m[1], objNames)
		t, e2 = numOrName(m[2], typeNames)
		rk.Key.Type = uint8(t)
		rk.Key.Off, e3 = numOrName(m[3], nil)
		rk.Gen, e4 = strconv.ParseUint(m[4], 10, 64)
		for _, e := range []error{e1, e2, e3, e4} {
			if e != nil {
				return nil, nil, fmt.Errorf("line %q: %v", l, e)
			}
		}
		recs = append(recs, rk)
	}
	return
}

func sortRecKeys(ks []recKey) {
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.Owner != b.Owner {
			return a.Owner < b.Owner
		}
		if a.Key != b.Key {
			return a.Key.less(b.Key)
		}
		return a.Gen < b.Gen
	})
}

func (c *Check) compareDump(what string, out []byte, want []recKey) bool {
	recs, heads, err := parseDump(out)
	if err != nil {
		c.violated("%s: %v", what, err)
		return false
	}
	for j := 0; j < len(recs) || j < len(want); j++ {
		if j >= len(recs) {
			c.violated("%s: record %v is not printed (%d of %d lines)", what, want[j], len(recs), len(want))
			return false
		}
		if j >= len(want) {
			c.violated("%s: printed %v, which is not a record or printed before", what, recs[j])
			return false
		}
		if recs[j] != want[j] {
			c.violated("%s: line %d shows owner %d %v @%d instead of owner %d %v @%d", what, j+1, recs[j].Owner, recs[j].Key, recs[j].Gen, want[j].Owner, want[j].Key, want[j].Gen)
			return false
		}
	}
	var wantHeads []uint64
	for j, k := range want {
		if j == 0 || k.Owner != want[j-1].Owner {
			wantHeads = append(wantHeads, k.Owner)
		}
	}
	if fmt.Sprint(heads) != fmt.Sprint(wantHeads) {
		c.violated("%s: owner headings %v instead of %v", what, heads, wantHeads)
		return false
	}
	return true
}

func checkC29(c *Check) {
	c.par(c.pick(48, 700), func(i int) {
		r := c.rng(i)
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		meta := filepath.Join(d, "meta")
		var recs []Rec
		switch {
		case i == 0:
		case i <= 6:
			// exactly one record, at the ends of everything
			k := Key{poolObj[r.Intn(len(poolObj))], uint8(r.Intn(255)), poolOff[r.Intn(len(poolOff))]}
			own := []uint64{0, ^uint64(0), 5, 1, ^uint64(1), 256}[i-1]
			recs = []Rec{{Owner: own, Key: k, Gen: poolGen[r.Intn(len(poolGen)-1)], Data: make([]byte, 500)}}
		case i == 7: // next to the reserved record
			for _, k := range []Key{{neg(256), 255, ^uint64(0) - 1}, {neg(257), 255, ^uint64(0)}, {neg(256), 254, ^uint64(0)}} {
				recs = append(recs, Rec{Owner: ^uint64(0), Key: k, Gen: ^uint64(0), Data: []byte("x")})
			}
			recs = append(recs, Rec{Owner: ^uint64(0), Key: Key{neg(256), 255, ^uint64(0)}, Gen: ^uint64(0) - 1, Data: []byte("y")})
			recs = append(recs, Rec{Owner: ^uint64(0), Key: Key{^uint64(0), 255, ^uint64(0)}, Gen: ^uint64(0), Data: []byte("z")})
		case i == 8: // every named object and type
			for _, o := range objNames {
				for _, t := range typeNames {
					recs = append(recs, Rec{Owner: 1, Key: Key{o, uint8(t), uint64(r.Intn(3))}, Gen: 7, Data: make([]byte, 500)})
				}
			}
			for t := 0; t < 255; t++ {
				recs = append(recs, Rec{Owner: 2, Key: Key{7000, uint8(t), 0}, Gen: 7, Data: make([]byte, 500)})
			}
		case i == 9:
			recs = randRecs(r, 25000, 2)
		case i == 10:
			recs = randRecs(r, 30000, 2)
			for n := 250000 + r.Intn(100000); n > 0; n-- {
				recs = append(recs, Rec{Owner: 5 + uint64(r.Intn(3)), Key: Key{uint64(n), []uint8{1, 12, 84, 96, 108}[r.Intn(5)], uint64(r.Intn(1 << 20))}, Gen: uint64(1 + r.Intn(20)), Data: make([]byte, 20)})
			}
			c.count("databases_of_hundreds_of_thousands", 1)
		default:
			recs = randRecs(r, 1+r.Intn(c.pick(1500, 6000)), i%3)
			if i%4 == 1 { // Neighbours that only differ in the owner or the generation
				recs = recs[:r.Intn(4)*r.Intn(len(recs))/3]
				for n := 1 + r.Intn(5); n > 0; n-- {
					rc := randRecs(r, 1, r.Intn(3))[0]
					for o, m := uint64(0), uint64(1+r.Intn(300)); o < m; o++ {
						rc.Owner += o % 2
						rc.Gen = 5 + o/uint64(2+n)
						recs = append(recs, rc)
					}
				}
			}
		}
		var want []recKey
		if !c.guard("building the index", func() { buildIndex(meta, recs) }) {
			return
		}
		have := map[recKey]bool{}
		for _, rc := range recs {
			k := recKey{rc.Owner, rc.Key, rc.Gen}
			if !have[k] {
				have[k] = true
				want = append(want, k)
			}
		}
		sortRecKeys(want)
		res := c.cli(runOpts{cpu: 120}, "dump-index", "--metadata", meta)
		what := fmt.Sprintf("case %d (%d records)", i, len(want))
		if res.Code != 0 {
			c.violated("%s: %v", what, res)
			return
		}
		if !c.compareDump(what, res.Out, want) {
			return
		}
		c.count("evaluations", len(want)+1)
		c.count("dumps", 1)
		for _, k := range want {
			c.seen("case", k.Key.Type, k.Key.Obj>>60, k.Gen>>60)
		}
		if i > 9 && i < 13 {
			c.sample(map[string]any{"records": len(want), "output bytes": len(res.Out)})
		}
	})
}
