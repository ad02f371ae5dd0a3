package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"syscall"
)

func init() {
	checks["C37"] = checkDef{fn: checkC37, level: "exploration", min: 60,
		rule: "every command run under a limit on its memory on images, extents, files and holes that are larger than it, some by far; results and the disk space they take are compared with the model; an evaluation is one command or one object compared; distinct ones differ in image, command or object"}
}

// dataLimit is the writable memory, in MiB, that commands get. What they work
// on is several times larger.
const dataLimit = 256

// bigFile adds a file whose extents or holes are larger than the memory.
func (g *genState) bigFile(d dirRef, name string, kind int) (data uint64) {
	r, fs := g.r, g.fs
	ino := g.newIno(d.owner)
	iv := g.attrs(sIFREG)
	at := uint64(0)
	ext := func(e ExtentV) {
		fs.set(d.owner, Key{ino, tExtentData, at}, encExtent(e, fs.Gen), e)
		at += e.Num
	}
	real := func(n uint64) {
		ext(ExtentV{Type: exReg, Disk: fs.allocData(n), DiskNum: n, Num: n, RAM: n})
		data += n
	}
	gib := uint64(1) << 30
	switch kind {
	case 0: // a large extent
		n := gib/2 + uint64(r.Intn(1<<15))*4096
		disk := fs.allocData(n)
		skip := uint64(r.Intn(200)) * 4096
		if r.Intn(2) == 0 {
			real(uint64(1+r.Intn(5)) * 4096)
		}
		ext(ExtentV{Type: exReg, Disk: disk, DiskNum: n, Off: skip, Num: n - skip, RAM: n})
		data += n
		iv.Size = at - uint64(r.Intn(4096))
	case 1: // many holes
		for k := 1 + r.Intn(5); k > 0; k-- {
			if r.Intn(3) > 0 {
				real(uint64(1+r.Intn(4)) * 4096)
			}
			n := (gib + uint64(r.Int63n(1<<39))) &^ 4095
			if r.Intn(2) == 0 {
				n = gib + uint64(r.Intn(1<<30))&^4095
			}
			switch r.Intn(3) {
			case 0:
				at += n
			case 1:
				ext(ExtentV{Type: exReg, Num: n, RAM: n})
			case 2:
				ext(ExtentV{Type: exPrealloc, Disk: fs.allocData(4096), DiskNum: n, Num: n, RAM: n})
			}
		}
		if r.Intn(2) == 0 {
			real(4096)
		}
		iv.Size = at - uint64(r.Intn(4096))
	case 2: // no extents
		iv.Size = gib + uint64(r.Int63n(1<<42))
	case 3: // little data and a large rest
		b := []byte(randName(r, 1+r.Intn(100)))
		ext(ExtentV{Type: exInline, Inline: b, RAM: uint64(len(b)), Num: 4096})
		data += 4096
		iv.Size = gib + uint64(r.Int63n(1<<42))
	}
	g.setInode(d.owner, ino, iv)
	g.link(d, EntryV{Name: name, Type: ftReg, Loc: Key{ino, tInodeItem, 0}})
	return data
}

// onDisk is the space that the files of a tree take.
func onDisk(dir string) (n uint64, files int) {
	must(filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.Type().IsRegular() {
			return err
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		n += uint64(fi.Sys().(*syscall.Stat_t).Blocks) * 512
		files++
		return nil
	}))
	return n, files
}

// dataSize is the space that the data of all regular files needs, with what the
// ends of extents need.
func (v *View) dataSize() (n uint64) {
	seen := map[[2]uint64]bool{}
	for _, t := range append([]uint64{oFS}, v.subvols()...) {
		v.walk(t, 256, "", seen, func(nd Node) {
			if nd.E.Type == ftReg {
				_, ss := v.segs(nd.Owner, nd.Ino)
				for _, s := range ss {
					n += s.n + 8192
				}
			}
		})
	}
	return n
}

func checkC37(c *Check) {
	c.par(c.pick(16, 120), func(i int) {
		r := c.rng(i)
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		must(os.Chmod(d, 0777))
		bs := blockSizes[r.Intn(5)]
		size := 3<<30 + uint64(r.Intn(1<<16))*65536
		kind := i % 4
		if kind == 0 { // the device is much larger than the file system needs
			size = sizeFor(r, bs, 2)
		}
		fs := newFS(r, bs, size)
		fs.sparse = true
		generate(fs, genOpts{entries: 10 + r.Intn(40), subvols: r.Intn(3), orphans: r.Intn(2), gens: r.Intn(2), xattrs: true, maxFile: 4, deep: 3})
		g := &genState{fs: fs, r: r, o: genOpts{maxFile: 4}}
		top := dirRef{oFS, 256}
		var data uint64
		holes := 0
		switch kind {
		case 1, 3:
			data += g.bigFile(top, "large extent", 0)
			c.count("extents_of_more_than_512_MiB", 1)
			fallthrough
		case 2:
			for k := 1; k <= 3; k++ {
				for n := r.Intn(4); n >= 0; n-- {
					data += g.bigFile(top, fmt.Sprintf("large %d %d", k, n), k)
					holes++
				}
			}
		}
		fs.flush(false)
		c.count("files_with_large_holes", holes)
		recs := fs.records(nil)
		v := fs.view(recs)
		img, meta := filepath.Join(d, "img"), filepath.Join(d, "meta")
		io := imgOpts{noise: fs.noise(8)}
		if kind == 0 {
			io.size = fs.Size + 4<<30 + uint64(r.Intn(4<<30))
			c.count("images_much_larger_than_memory", 1)
		}
		fs.writeImage(img, io)
		what := fmt.Sprintf("case %d with %d MiB of memory (%s)", i, dataLimit, fs.describe())
		lim := runOpts{dataMB: dataLimit, cpu: 150}
		run := func(args ...string) (Res, bool) {
			res := c.cli(lim, args...)
			c.count("evaluations", 1)
			c.count("commands_under_the_limit", 1)
			c.seen("case", i, args[0], len(args))
			if res.Code != 0 {
				c.violated("%s: %v", what, res)
			}
			return res, res.Code == 0
		}
		if kind == 0 {
			if _, ok := run(reconArgs(bs, fs.FSID, meta, img)...); !ok {
				return
			}
			got, ok := c.readIndex(what, meta)
			if !ok {
				return
			}
			if x := diffState(got, wantState(recs)); x != "" {
				c.violated("%s: %s", what, x)
				return
			}
			// Any device
			f, err := os.OpenFile(img, os.O_WRONLY, 0)
			must(err)
			for _, s := range []int64{15 << 40, 7 << 40, 1 << 40} {
				if f.Truncate(s+int64(r.Intn(1<<30))) == nil {
					break
				}
			}
			f.Close()
			if _, ok := run("identify", "-p=false", "--block-size", fmt.Sprint(bs), "--min-occurrence", "1", "--sample-fraction", "0", "--min-blocks", fmt.Sprint(1+r.Intn(20000)), img); !ok {
				return
			}
		} else {
			buildIndex(meta, recsOf(recs))
		}
		if res, ok := run("ls", "--recursive", "--inode", "--metadata", meta); !ok || kind > 0 && !bytes.Contains(res.Out, []byte("large")) {
			c.violated("%s: the large files are not listed: %v", what, res)
			return
		}
		if _, ok := run("dump-index", "--metadata", meta); !ok {
			return
		}
		if kind == 3 {
			c.mountBig(r, what, d, meta, img, v, fs)
			return
		}
		dst := filepath.Join(d, "dst")
		must(os.Mkdir(dst, 0755))
		before, _ := onDisk(dst)
		lim.uid = nobody
		c.giveAway(dst)
		for k := 0; k < 2; k++ {
			a := []string{"recover", "--metadata", meta}
			if k == 1 {
				if kind == 1 {
					break
				}
				a = append(a, "--clobber")
			}
			if _, ok := run(append(a, img, dst)...); !ok {
				return
			}
			used, files := onDisk(dst)
			allowed := before + 4<<20 + uint64(files)*16384 + v.dataSize()
			c.count("disk_space_judged", 1)
			c.count("evaluations", files)
			if used > allowed {
				c.violated("%s: the %d recovered files take %d bytes of disk space, but have only %d bytes of data, besides small files, which makes %d in all", what, files, used, data, allowed)
				return
			}
			rc := c.newRecCmp(what, v, dst)
			rc.all()
			c.count("files_compared", rc.files)
			if rc.stop {
				return
			}
		}
		if i < 4 {
			c.sample(map[string]any{"image": fs.describe(), "data of large files": data, "files with large holes": holes})
		}
	})
}

func (c *Check) mountBig(r *rand.Rand, what, d, meta, img string, v *View, fs *FS) {
	m := c.mustMount(what, d, mountOpts{data: dataLimit}, "--metadata", meta, img)
	if m == nil {
		return
	}
	k := &kclient{c: c, m: m, v: v, what: what, imgSize: fs.Size, quiet: true}
	if rt, ok := k.root(); ok {
		for _, n := range k.collect(rt) {
			k.readFile(r, n, c.pick(60, 200))
		}
	}
	m.finish(what, true)
	c.count("mounts", 1)
}
