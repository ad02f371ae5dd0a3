package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"go.etcd.io/bbolt"
)

func init() {
	checks["C39"] = checkDef{fn: checkC39, level: "exploration", min: 20,
		rule: "every command run on inputs of two sizes, one growth times as large as the other, that differ in the number of one kind of object; the processor time that the larger one takes is compared with growth times that of the smaller one; an evaluation is one pair; distinct ones differ in kind of object or command"}
}

// grown is a set of records with many objects of a kind.
type grown struct {
	recs []Rec
	ino  uint64
	img  int64 // size of the image that its extents need
}

func (w *grown) add(o uint64, k Key, gen uint64, data []byte) {
	w.recs = append(w.recs, Rec{o, k, gen, data, nil})
}

func (w *grown) inode(o, ino, gen uint64, mode uint32, size uint64) {
	w.add(o, Key{ino, tInodeItem, 0}, gen, encInode(InodeV{Size: size, Nlink: 1, Mode: mode}))
}

func (w *grown) entry(o, dir, gen uint64, e EntryV) {
	w.add(o, Key{dir, tDirItem, uint64(refNameHash([]byte(e.Name)))}, gen, encEntries([]EntryV{e}, gen))
}

func (w *grown) tree(o uint64) {
	w.inode(o, 256, 5, sIFDIR|0755, 0)
	if o != oFS {
		w.add(oRoot, Key{o, tRootItem, 0}, 5, make([]byte, 439))
	}
}

func (w *grown) newIno() uint64 {
	w.ino++
	return 256 + w.ino
}

// node adds an entry for a new file, directory or link.
func (w *grown) node(o, dir uint64, typ uint8, name, data string) uint64 {
	ino := w.newIno()
	w.entry(o, dir, 5, EntryV{Name: name, Type: typ, Loc: Key{ino, tInodeItem, 0}})
	mode := map[uint8]uint32{ftReg: sIFREG | 0644, ftDir: sIFDIR | 0755, ftSymlink: sIFLNK | 0777}[typ]
	w.inode(o, ino, 5, mode, uint64(len(data)))
	if typ != ftDir && data != "" {
		w.add(o, Key{ino, tExtentData, 0}, 5, encExtent(ExtentV{Inline: []byte(data), RAM: uint64(len(data))}, 5))
	}
	return ino
}

// write writes the metadata file.
func (w *grown) write(path string) {
	vals := map[string][]byte{}
	for _, r := range w.recs {
		k := rawKey(recKey{r.Owner, r.Key, r.Gen})
		if vals[string(k)] != nil {
			continue // Names of the same hash
		}
		vals[string(k)] = append(itemBytes(r.Key, 3000, uint32(len(r.Data))), r.Data...)
	}
	keys := make([]string, 0, len(vals))
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	db, err := bbolt.Open(path, 0644, &bbolt.Options{NoSync: true})
	must(err)
	must(db.Update(func(tx *bbolt.Tx) error {
		b, err := tx.CreateBucket([]byte("index"))
		must(err)
		must(b.Put(formatMetaKey, formatMeta(formatVersion, 4096, UUID{1}, ^uint64(0))))
		for _, k := range keys {
			must(b.Put([]byte(k), vals[k]))
		}
		return nil
	}))
	must(db.Close())
}

// work is a command on input of some size. It can be repeated.
type work struct {
	name string
	do   func() time.Duration
}

// growKind is a kind of object of which there may be many.
type growKind struct {
	name string
	n    int // how many the smaller input has
	prep func(t *timing, r *rand.Rand, n int) []work
}

// timing runs commands and tells how much processor time they take.
type timing struct {
	c    *Check
	d    string // of the input
	what string
	out  int // lines printed
}

func (t *timing) cli(args ...string) time.Duration {
	res := t.c.cli(runOpts{cpu: 90}, args...)
	if res.Code != 0 {
		t.c.violated("%s: %v", t.what, res)
	}
	t.out = bytes.Count(res.Out, []byte("\n"))
	t.c.count("lines_printed", t.out)
	return res.CPU
}

// indexOf writes n objects and returns the commands that use them.
func indexOf(cmds string, fill func(w *grown, r *rand.Rand, n int)) func(t *timing, r *rand.Rand, n int) []work {
	return func(t *timing, r *rand.Rand, n int) (ws []work) {
		meta, img := filepath.Join(t.d, "meta"), filepath.Join(t.d, "img")
		w := &grown{}
		fill(w, r, n)
		w.write(meta)
		f, err := os.Create(img)
		must(err)
		must(f.Truncate(max(w.img, 64<<20)))
		must(f.Close())
		for _, cmd := range cmds {
			switch cmd {
			case 'l':
				ws = append(ws, work{"ls", func() time.Duration { return t.cli("ls", "--recursive", "--inode", "--metadata", meta) }})
			case 'd':
				ws = append(ws, work{"dump-index", func() time.Duration { return t.cli("dump-index", "--metadata", meta) }})
			case 'r':
				ws = append(ws, work{"recover", func() time.Duration {
					dst := filepath.Join(t.d, "dst")
					must(os.Mkdir(dst, 0777))
					defer os.RemoveAll(dst)
					return t.cli("recover", "--metadata", meta, img, dst)
				}})
			case 'm':
				ws = append(ws, work{"mount", func() time.Duration { return t.mount(meta, img) }})
			}
		}
		return
	}
}

// mount lists every directory of a mounted view and looks up every entry.
func (t *timing) mount(meta, img string) time.Duration {
	m := t.c.mustMount(t.what, t.d, mountOpts{}, "-p=false", "--metadata", meta, img)
	if m == nil {
		return 0
	}
	dirs := []uint64{1}
	objs := 0
	for len(dirs) > 0 {
		d := dirs[0]
		dirs = dirs[1:]
		es, errno := m.readdir(d, 32768, false)
		if errno != 0 {
			t.c.violated("%s: listing a directory of the mounted view gave error %d", t.what, errno)
			break
		}
		for _, e := range es {
			if e.Name == "." || e.Name == ".." {
				continue
			}
			objs++
			id, _, errno := m.lookup(d, e.Name)
			if errno != 0 {
				t.c.violated("%s: looking up %q gave error %d", t.what, e.Name, errno)
			} else if e.Type == 4 {
				dirs = append(dirs, id)
			} else {
				m.forget(id, 1)
			}
		}
	}
	t.c.count("entries_looked_up", objs)
	m.finish(t.what, true)
	return t.c.procTime(m.cmd.ProcessState)
}

// thread measures calls of the library.
func (t *timing) thread(fn func(over func() bool)) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	now := func() time.Duration {
		var ru syscall.Rusage
		must(syscall.Getrusage(1, &ru)) // RUSAGE_THREAD
		return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
	}
	begin := now()
	calls, stopped := 0, false
	fn(func() bool {
		calls++
		stopped = stopped || calls%16 == 0 && now()-begin > 20*time.Second
		return stopped
	})
	t.c.count("library_calls", calls)
	if stopped {
		return time.Hour
	}
	return now() - begin
}

// leaves writes an image of n leaves of a few items, of one or n filesystems.
func leaves(t *timing, r *rand.Rand, n int, ids bool) (img string) {
	img = filepath.Join(t.d, "img")
	f, err := os.Create(img)
	must(err)
	const bs = 4096
	must(f.Truncate(max(64<<20+200*bs, int64(n+64)*bs)))
	wr := bufio.NewWriterSize(f, 1<<20)
	_, err = f.Seek(32*bs, 0)
	must(err)
	for i := 0; i < n; i++ {
		id := UUID{1}
		if ids {
			r.Read(id[:])
		}
		var items []Rec
		for k := uint64(0); k < 8; k++ {
			items = append(items, Rec{Owner: oFS, Key: Key{uint64(i)*8 + k + 256, tInodeItem, 0}, Gen: 7, Data: encInode(InodeV{Mode: sIFREG | 0600})})
		}
		_, err := wr.Write(buildLeaf(id, UUID{2}, bs, oFS, 7, uint64(i)*bs, items, nil))
		must(err)
	}
	must(wr.Flush())
	must(f.Close())
	return
}

var growKinds = []growKind{
	{"entries of a directory", 8000, indexOf("lrdm", func(w *grown, r *rand.Rand, n int) {
		w.tree(oFS)
		for i := 0; i < n; i++ {
			switch i % 8 {
			case 0:
				w.node(oFS, 256, ftDir, fmt.Sprintf("directory-%d", i), "")
			case 1:
				w.node(oFS, 256, ftSymlink, fmt.Sprintf("link-%d", i), "target")
			default:
				w.node(oFS, 256, ftReg, fmt.Sprintf("file-%d", i), fmt.Sprint(i))
			}
		}
	})},
	{"directories", 10000, indexOf("lrm", func(w *grown, r *rand.Rand, n int) {
		w.tree(oFS)
		dirs := []uint64{256}
		for i := 0; i < n; i++ {
			dirs = append(dirs, w.node(oFS, dirs[i/12], ftDir, fmt.Sprint("d", i), ""))
		}
	})},
	{"subvolumes", 4000, indexOf("lrm", func(w *grown, r *rand.Rand, n int) {
		w.tree(oFS)
		for i := 0; i < n; i++ {
			o := uint64(257 + i)
			w.entry(oFS, 256, 5, EntryV{Name: fmt.Sprint("sub", i), Type: ftDir, Loc: Key{o, tRootItem, ^uint64(0)}})
			w.tree(o)
			w.node(o, 256, ftReg, "file", "x")
		}
	})},
	{"subvolumes without entry", 4000, indexOf("r", func(w *grown, r *rand.Rand, n int) {
		w.tree(oFS)
		for i := 0; i < n; i++ {
			o := uint64(257 + i)
			w.tree(o)
			w.node(o, 256, ftReg, "file", "x")
		}
	})},
	{"versions of a record", 500, indexOf("lrdm", func(w *grown, r *rand.Rand, n int) {
		w.tree(oFS)
		for i := 0; i < 40; i++ {
			name := fmt.Sprint("file", i)
			ino := w.node(oFS, 256, ftReg, name, "x")
			for g := 0; g < n; g++ {
				gen := uint64(6 + g)
				w.inode(oFS, ino, gen, sIFREG|0600, uint64(g%7))
				w.entry(oFS, 256, gen, EntryV{Name: name, Type: ftReg, Loc: Key{ino, tInodeItem, 0}})
				w.add(oFS, Key{ino, tExtentData, 0}, gen, encExtent(ExtentV{Inline: []byte("abcdefg"), RAM: 7}, 5))
			}
		}
	})},
	{"chunks and extents of a file", 1000, indexOf("r", func(w *grown, r *rand.Rand, n int) {
		w.tree(oFS)
		ino := w.node(oFS, 256, ftReg, "file", "")
		w.img = int64(n) * 4096
		w.recs = w.recs[:len(w.recs)-1]
		w.inode(oFS, ino, 5, sIFREG|0644, uint64(n)*4096)
		for i, p := range r.Perm(n) {
			l := 1<<30 + uint64(p)*65536
			w.add(oChunk, Key{256, tChunkItem, l}, 5, encChunk(ChunkV{Len: 65536, Type: 1, Stripes: []StripeV{{Dev: 1, Off: uint64(p) * 4096}}}))
			w.add(oFS, Key{ino, tExtentData, uint64(i) * 4096}, 5, encExtent(ExtentV{Type: 1, Disk: l, DiskNum: 4096, Num: 4096, RAM: 4096}, 5))
		}
	})},
	{"holes of a file", 4000, indexOf("r", func(w *grown, r *rand.Rand, n int) {
		w.tree(oFS)
		ino := w.node(oFS, 256, ftReg, "file", "")
		w.recs = w.recs[:len(w.recs)-1]
		w.inode(oFS, ino, 5, sIFREG|0644, uint64(n)*8192)
		for i := 0; i < n; i++ {
			w.add(oFS, Key{ino, tExtentData, uint64(i) * 8192}, 5, encExtent(ExtentV{Type: 1 + uint8(i%2), Disk: uint64(i%2) * 4096, Num: 4096, RAM: 4096, DiskNum: 4096}, 5))
		}
	})},
	{"records, through the library", 4000, func(t *timing, r *rand.Rand, n int) []work {
		w := &grown{}
		w.tree(oFS)
		names := make([]string, n)
		for i := range names {
			names[i] = fmt.Sprintf("file-%d", i)
			w.node(oFS, 256, ftReg, names[i], "")
		}
		perm := r.Perm(n)
		meta := filepath.Join(t.d, "meta")
		w.write(meta)
		each := func(name string, fn func(ix *index.Index, over func() bool)) work {
			return work{name, func() time.Duration {
				ix := openRO(meta)
				defer ix.Close()
				return t.thread(func(over func() bool) { fn(ix, over) })
			}}
		}
		calls := func(name string, fn func(ix *index.Index, i int)) work {
			return each(name, func(ix *index.Index, over func() bool) {
				for _, i := range perm {
					if over() {
						return
					}
					fn(ix, i)
				}
			})
		}
		return []work{
			{"inserting", func() time.Duration {
				p := filepath.Join(t.d, "new")
				defer os.Remove(p)
				ix := openRW(p, UUID{1}, 4096, ^uint64(0))
				defer ix.Close()
				return t.thread(func(over func() bool) {
					for i, rec := range w.recs {
						mustInsert(ix, rec)
						if over() {
							return
						}
						if i%1000 == 0 {
							must(ix.Commit())
						}
					}
					must(ix.Commit())
				})
			}},
			calls("FindInodeItem", func(ix *index.Index, i int) { ix.FindInodeItem(oFS, 257+uint64(i)) }),
			calls("FindDirItemForPath", func(ix *index.Index, i int) { ix.FindDirItemForPath(oFS, names[i]) }),
			calls("XAttrItems", func(ix *index.Index, i int) { ix.XAttrItems(oFS, 257+uint64(i)) }),
			each("Range", func(ix *index.Index, over func() bool) {
				for r, _ := ix.Range(oFS, index.KF(0), index.KL(255)); r.HasNext() && !over(); r.Next() {
				}
			}),
			each("FullRange", func(ix *index.Index, over func() bool) {
				for r, _ := ix.FullRange(); r.HasNext() && !over(); r.Next() {
				}
			}),
		}
	}},
	{"chunks, through the library", 12000, func(t *timing, r *rand.Rand, n int) []work {
		w := &grown{}
		for i := 0; i < n; i++ {
			w.add(oChunk, Key{256, tChunkItem, uint64(i+1) << 20}, 5, encChunk(ChunkV{Len: 1 << 20, Type: 1, Stripes: []StripeV{{Dev: 1, Off: uint64(i) << 20}}}))
		}
		perm := r.Perm(n)
		meta := filepath.Join(t.d, "meta")
		w.write(meta)
		return []work{
			{"PhysicalRange", func() time.Duration {
				ix := openRO(meta)
				defer ix.Close()
				return t.thread(func(over func() bool) {
					for _, i := range perm {
						if over() {
							return
						}
						ix.PhysicalRange(uint64(i+1)<<20 + 4096)
					}
				})
			}},
			{"Chunks", func() time.Duration {
				ix := openRO(meta)
				defer ix.Close()
				return t.thread(func(over func() bool) {
					for r, _ := ix.Chunks(); r.HasNext() && !over(); r.Next() {
					}
				})
			}},
		}
	}},
	{"leaves", 2500, func(t *timing, r *rand.Rand, n int) []work {
		img := leaves(t, r, n, false)
		meta := filepath.Join(t.d, "meta")
		scan := func() time.Duration {
			return t.cli(reconArgs(4096, UUID{1}, meta, img)...)
		}
		return []work{
			{"recon", func() time.Duration { os.Remove(meta); return scan() }},
			{"recon, repeated", scan},
		}
	}},
	{"filesystem ids", 10000, func(t *timing, r *rand.Rand, n int) []work {
		img := leaves(t, r, n, true)
		return []work{{"identify", func() time.Duration {
			return t.cli("identify", "-p=false", "--block-size", "4096", "--min-occurrence", "1", "--min-blocks", "1000000000", img)
		}}}
	}},
	{"sampled blocks", 20000, func(t *timing, r *rand.Rand, n int) []work {
		img := leaves(t, r, 1000, false)
		must(os.Truncate(img, 1<<38))
		return []work{{"identify", func() time.Duration {
			return t.cli("identify", "-p=false", "--block-size", "4096", "--min-blocks", fmt.Sprint(n), img)
		}}}
	}},
}

// growth is how much larger the larger input is. The time it takes may be
// growSlack times more than that, and timeFloor is counted at least for the
// smaller one.
const (
	growth    = 8
	growSlack = 3
	timeFloor = 20 * time.Millisecond
)

func checkC39(c *Check) {
	for round := 0; round < c.pick(1, 3); round++ {
		for i, g := range growKinds {
			if c.only >= 0 && i != c.only {
				continue
			}
			c.guard(g.name, func() { c.growOne(round, i, g) })
		}
	}
}

func (c *Check) growOne(round, i int, g growKind) {
	r := c.rng(round*1000 + i)
	d := c.dir(fmt.Sprint("c", i))
	defer os.RemoveAll(d)
	n := g.n << round
	var ws [2][]work
	for j, k := range []int{n, n * growth} {
		dj := filepath.Join(d, fmt.Sprint(j))
		must(os.MkdirAll(dj, 0777))
		must(os.Chmod(dj, 0777))
		t := &timing{c: c, d: dj, what: fmt.Sprintf("%d %s", k, g.name)}
		ws[j] = g.prep(t, r, k)
	}
	for k := range ws[0] {
		var best [2]time.Duration
		what := fmt.Sprintf("%s with %d and %d %s", ws[0][k].name, n, n*growth, g.name)
		slow := false
		for try := 0; try < 4; try++ {
			for j := range ws {
				if t := ws[j][k].do(); try == 0 || t < best[j] {
					best[j] = t
				}
				if c.failed() {
					return
				}
			}
			least := max(best[0], timeFloor)
			slow = best[1] > growth*growSlack*least
			if best[1] < growth*3/2*least || best[1] > growth*growSlack*4*least {
				break // Clear
			}
		}
		c.count("evaluations", 1)
		c.seen("case", g.name, ws[0][k].name, n)
		c.sample(map[string]any{"what": what, "seconds": []float64{best[0].Seconds(), best[1].Seconds()}})
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, what, best)
		}
		if slow {
			c.violated("%s takes %v and %v of processor time: %.0f times the time for %d times the work", what, best[0], best[1], float64(best[1])/float64(best[0]), growth)
		}
	}
}
