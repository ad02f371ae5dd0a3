package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	checks["C11"] = checkDef{fn: checkC11, level: "exploration", min: 2500,
		rule: "generated file systems with all kinds of extents, subvolumes in place and unreferenced, several generations, recovered by the real program into an empty directory and compared with the model byte by byte, holes by SEEK_DATA; an evaluation is one object, non-trivial if it is a file with data or a link"}
	checks["C12"] = checkDef{fn: checkC12, level: "exploration", min: 60,
		rule: "metadata with hostile names, link targets and structure, and destinations with links, hard links and files in the way, recovered as an unprivileged user with writable sentinel trees around the destination; snapshots of everything outside before and after; an evaluation is one recovery"}
	checks["C13"] = checkDef{fn: checkC13, level: "exploration", min: 1000,
		rule: "recovery into destinations already holding files, links, hard links and directories, without and with overwriting, and repeated; an evaluation is one pre-existing or recovered object compared"}
	checks["C14"] = checkDef{fn: checkC14, level: "fault_enumeration", min: 1500,
		rule: "recovery with image cut off, chunks missing, reads failing with an I/O error, extents in unknown encodings or inodes missing; every file is either restored exactly or named in a warning; an evaluation is one file, non-trivial if its data cannot be obtained"}
}

// recCmp compares a recovered tree with the model.
type recCmp struct {
	c    *Check
	what string
	v    *View
	root string
	// refs counts the entries that name a directory
	refs map[[2]uint64]int
	// judge decides what to do with a file; nil compares all
	judge func(rel string, n Node, path string) bool
	// keep tells that something that was there before is in the way
	inWay map[string]bool
	loc   map[[2]uint64][]string // candidate places of directories
	done  map[string]bool
	files int
	stop  bool
}

// recoverable tells whether an entry must be recovered under its name.
func recoverable(e EntryV) bool {
	if e.Name == "" || e.Name == "." || e.Name == ".." || strings.ContainsAny(e.Name, "/\x00") {
		return false
	}
	return e.Type == ftReg || e.Type == ftDir || e.Type == ftSymlink
}

func (c *Check) newRecCmp(what string, v *View, root string) *recCmp {
	rc := &recCmp{c: c, what: what, v: v, root: root, refs: map[[2]uint64]int{}, inWay: map[string]bool{}, loc: map[[2]uint64][]string{}, done: map[string]bool{}}
	seen := map[[2]uint64]bool{}
	cnt := func(n Node) {
		if n.E.Type == ftDir && recoverable(n.E) {
			rc.refs[[2]uint64{n.Owner, n.Ino}]++
		}
	}
	rc.refs[[2]uint64{oFS, 256}] = 1
	v.walk(oFS, 256, "", seen, cnt)
	for _, s := range v.subvols() {
		v.walk(s, 256, "", seen, cnt)
	}
	return rc
}

func (rc *recCmp) bad(format string, a ...any) {
	rc.c.violated("%s: "+format, append([]any{rc.what}, a...)...)
	rc.stop = true
}

// all compares the main tree and the other subvolumes.
func (rc *recCmp) all() {
	v := rc.v
	reach := map[[2]uint64]bool{}
	v.walk(oFS, 256, "", reach, func(Node) {})
	rc.dir(oFS, 256, "", nil)
	mainNames := map[string]bool{}
	for _, e := range v.entries(oFS, 256) {
		mainNames[e.Name] = true
	}
	// Unreferenced subvolumes
	for _, id := range v.subvols() {
		k := [2]uint64{id, 256}
		if reach[k] || rc.stop {
			continue
		}
		name := fmt.Sprintf("subvol_%d", id)
		for mainNames[name] {
			name += "_"
		}
		if rc.inWay[name] {
			continue
		}
		if fi, err := os.Lstat(filepath.Join(rc.root, name)); err == nil && fi.IsDir() {
			rc.loc[k] = append(rc.loc[k], name)
		} else if rc.refs[k] == 0 {
			rc.bad("unreferenced subvolume %d was not recovered to %s: %v", id, name, err)
		}
		rc.refs[k]++
		if rc.refs[k] == 1 {
			rc.dir(id, 256, name, nil)
		}
	}
	// Directories with several names must be found at one of them.
	for progress := true; progress && !rc.stop; {
		progress = false
		var keys [][2]uint64
		for k := range rc.loc {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
		})
		for _, k := range keys {
			for _, p := range rc.loc[k] {
				if rc.done[p] || rc.stop {
					continue
				}
				if es, _ := os.ReadDir(filepath.Join(rc.root, p)); len(es) > 0 {
					rc.dir(k[0], k[1], p, nil)
					progress = true
				}
			}
		}
	}
	if rc.stop {
		return
	}
	for k, ps := range rc.loc {
		found := false
		for _, p := range ps {
			found = found || rc.done[p]
		}
		n := 0
		for _, e := range v.entries(k[0], k[1]) {
			if recoverable(e) && e.Type != ftDir {
				n++
			}
		}
		if !found && n > 0 {
			rc.bad("directory of tree %d inode %d is empty at all of %q, but has %d files", k[0], k[1], ps, n)
		}
	}
	// Every reachable directory with several names has some place.
	if len(rc.inWay) == 0 {
		for k := range reach {
			if rc.refs[k] > 1 && k != [2]uint64{oFS, 256} && len(rc.loc[k]) == 0 && rc.judge == nil {
				rc.bad("directory of tree %d inode %d, which has %d names, is at none of them", k[0], k[1], rc.refs[k])
			}
		}
	}
}

func (rc *recCmp) dir(owner, ino uint64, rel string, path []string) {
	if rc.stop || rc.done[rel] {
		return
	}
	rc.done[rel] = true
	full := filepath.Join(rc.root, rel)
	want := map[string]bool{}
	for _, e := range rc.v.entries(owner, ino) {
		if strings.ContainsRune(e.Name, '/') || e.Name == "" {
			continue
		}
		want[e.Name] = true
		if !recoverable(e) || rc.stop {
			continue
		}
		o, i := e.target(owner)
		p := e.Name
		if rel != "" {
			p = rel + "/" + e.Name
		}
		fp := filepath.Join(rc.root, p)
		if rc.inWay[p] {
			continue
		}
		fi, err := os.Lstat(fp)
		k := [2]uint64{o, i}
		if e.Type == ftDir && (rc.refs[k] > 1 || k == [2]uint64{oFS, 256}) {
			if err == nil && fi.IsDir() && strings.Count(p, "/") < 500 {
				rc.loc[k] = append(rc.loc[k], p)
			}
			continue
		}
		n := Node{Path: p, Owner: o, Ino: i, E: e}
		if e.Type != ftDir && rc.judge != nil && !rc.judge(p, n, fp) {
			continue
		}
		if err != nil {
			rc.bad("%q (tree %d inode %d, type %d) was not recovered: %v", p, o, i, e.Type, err)
			return
		}
		switch e.Type {
		case ftDir:
			if !fi.IsDir() {
				rc.bad("%q is not a directory but %v", p, fi.Mode())
				return
			}
			rc.dir(o, i, p, nil)
		case ftSymlink:
			t, terr := os.Readlink(fp)
			w, ok := rc.v.linkTarget(o, i)
			if ok && (terr != nil || t != w) {
				rc.bad("link %q has target %q (%v) instead of %q", p, t, terr, w)
				return
			}
			rc.c.seen("case", rc.what, p)
		case ftReg:
			if !fi.Mode().IsRegular() {
				rc.bad("%q is not a regular file but %v", p, fi.Mode())
				return
			}
			if d := compareFile(rc.v, o, i, fp); d != "" {
				rc.bad("file %q (tree %d inode %d): %s", p, o, i, d)
				return
			}
			if fi.Size() > 0 {
				rc.c.seen("case", rc.what, p)
			}
			rc.files++
		}
		rc.c.count("evaluations", 1)
		rc.c.seen("object_kind", e.Type)
	}
	if rc.stop {
		return
	}
	// Nothing else, except what the tool may add at the top.
	es, err := os.ReadDir(full)
	if err != nil {
		rc.bad("%q cannot be read: %v", rel, err)
		return
	}
	for _, e := range es {
		p := e.Name()
		if rel != "" {
			p = rel + "/" + p
		}
		if !want[e.Name()] && !(rel == "" && strings.HasPrefix(e.Name(), "subvol_")) && !rc.inWay[p] {
			rc.bad("%q appeared, which the filesystem does not have", p)
			return
		}
	}
	rc.c.count("directories_compared", 1)
}

// compareFile compares a recovered file with the model.
func compareFile(v *View, owner, ino uint64, path string) string {
	f, err := os.Open(path)
	if err != nil {
		return err.Error()
	}
	defer f.Close()
	fi, err := f.Stat()
	must(err)
	size, ss := v.segs(owner, ino)
	if uint64(fi.Size()) != size {
		return fmt.Sprintf("length %d instead of %d", fi.Size(), size)
	}
	buf := make([]byte, 1<<16)
	for _, s := range ss {
		if s.bad != "" {
			return "cannot be restored: " + s.bad
		}
		for off := uint64(0); off < s.n; {
			n := s.n - off
			if n > uint64(len(buf)) {
				n = uint64(len(buf))
			}
			if _, err := f.ReadAt(buf[:n], int64(s.at+off)); err != nil {
				return err.Error()
			}
			for x := uint64(0); x < n; x++ {
				w := byte(0)
				if s.inline != nil {
					w = s.inline[off+x]
				} else {
					w = v.fs.pat(s.phys + off + x)
				}
				if buf[x] != w {
					return fmt.Sprintf("byte %d is %#x instead of %#x (extent at %d, %d bytes)", s.at+off+x, buf[x], w, s.at, s.n)
				}
			}
			off += n
		}
	}
	// Everything else is zero.
	sort.Slice(ss, func(i, j int) bool { return ss[i].at < ss[j].at })
	pos := int64(0)
	for pos < fi.Size() {
		d, err := f.Seek(pos, 3 /* SEEK_DATA */)
		if err != nil {
			break // ENXIO: no more data
		}
		h, err := f.Seek(d, 4 /* SEEK_HOLE */)
		if err != nil {
			h = fi.Size()
		}
		for p := d; p < h; {
			n := h - p
			if n > int64(len(buf)) {
				n = int64(len(buf))
			}
			if _, err := f.ReadAt(buf[:n], p); err != nil && err != io.EOF {
				return err.Error()
			}
			for x := int64(0); x < n; {
				// Skip what belongs to an extent
				q := uint64(p + x)
				k := sort.Search(len(ss), func(k int) bool { return ss[k].at+ss[k].n > q })
				if k < len(ss) && ss[k].at <= q {
					x += int64(ss[k].at + ss[k].n - q)
					continue
				}
				if buf[x] != 0 {
					return fmt.Sprintf("byte %d is %#x instead of zero", q, buf[x])
				}
				x++
			}
			p += n
		}
		pos = h
	}
	return ""
}

func checkC11(c *Check) {
	if c.only < 0 || c.only == 900 {
		c.deepPaths()
	}
	c.par(c.pick(56, 700), func(i int) {
		r := c.rng(i)
		o := genOpts{entries: 10 + r.Intn(100), subvols: r.Intn(5), orphans: r.Intn(4), gens: r.Intn(5), specials: r.Intn(2) == 0, xattrs: r.Intn(3) == 0,
			collide: r.Intn(2) == 0, badHash: i%5 == 1, wildNames: true, huge: i%3 == 0, noRename: i%2 == 0, deep: 1 + r.Intn(9), maxFile: 3 + r.Intn(30)}
		if i%11 == 4 {
			o.maxFile = 700 // several MiB in one extent
			o.entries = 20
		}
		o.diskLinks = i%4 == 3
		cyc := i%7 == 5
		o.far = i%8 == 6
		if i%10 == 3 {
			o.chain, o.chainName = 20+r.Intn(150), 3+r.Intn(8)
		}
		if i%10 == 8 {
			o.wide, o.badHash = 200+r.Intn(800), false
		}
		if i == 22 || i == 33 { // one on a large device
			o.scale, o.noRename = true, true
		}
		s := c.makeSetup(fmt.Sprint("c", i), r, o, i%3 > 0, true, func(fs *FS) {
			if cyc {
				addCycles(fs, r)
			}
			if i%6 == 2 { // names the tool uses itself
				g := &genState{fs: fs, r: r, o: genOpts{maxFile: 4}}
				for _, id := range fs.view(fs.records(nil)).subvols() {
					name := fmt.Sprint("subvol_", id)
					for r.Intn(3) > 0 {
						ino := g.newIno(oFS)
						t := []uint8{ftReg, ftDir}[r.Intn(2)]
						if g.link(dirRef{oFS, 256}, EntryV{Name: name, Type: t, Loc: Key{ino, tInodeItem, 0}}) {
							if t == ftReg {
								g.mkFile(oFS, ino)
							} else {
								g.setInode(oFS, ino, g.attrs(sIFDIR))
							}
						}
						name += "_"
					}
				}
			}
		})
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		dst := filepath.Join(s.dir, "dst")
		switch r.Intn(3) {
		case 0:
			must(os.Mkdir(dst, 0755))
		case 1:
			dst = filepath.Join(s.dir, "new", "deeper", "dst")
		}
		a := []string{"recover", "--metadata", s.meta, s.img, dst}
		if r.Intn(3) == 0 {
			a = append(a, "--clobber")
		}
		if r.Intn(3) == 0 {
			a = append(a, "-v")
		}
		res := c.cli(runOpts{cpu: 120}, a...)
		if res.Code != 0 {
			c.violated("case %d: %v", i, res)
			return
		}
		rc := c.newRecCmp(fmt.Sprintf("case %d (%s)", i, s.fs.describe()), s.v, dst)
		rc.all()
		if rc.stop {
			c.violated("case %d: stderr of that run: %.1500s", i, res.Err)
		}
		multi := 0
		for _, n := range rc.refs {
			if n > 1 {
				multi++
			}
		}
		c.count("files_compared", rc.files)
		c.count("directories_with_several_names", multi)
		if i < 3 {
			c.sample(map[string]any{"image": s.fs.describe(), "files": rc.files})
		}
	})
}

// deepPaths recovers directories so deep that their paths are longer than the
// system accepts in one call.
func (c *Check) deepPaths() {
	r := c.rng(900)
	s := &setup{dir: c.dir("deep")}
	defer os.RemoveAll(s.dir)
	fs := newFS(r, 16384, sizeFor(r, 16384, 1))
	generate(fs, genOpts{entries: 5, noRename: true, maxFile: 2})
	g := &genState{fs: fs, r: r, o: genOpts{maxFile: 4}, depth: map[dirRef]int{}}
	d := dirRef{oFS, 256}
	var names []string
	for i := 0; i < 30; i++ {
		ino := g.newIno(oFS)
		n := fmt.Sprintf("%c%s%02d", 'a'+i%26, strings.Repeat("-long", 38), i)
		if !g.link(d, EntryV{Name: n, Type: ftDir, Loc: Key{ino, tInodeItem, 0}}) {
			panic("harness: name taken")
		}
		g.setInode(oFS, ino, g.attrs(sIFDIR))
		d = dirRef{oFS, ino}
		names = append(names, n)
		f := g.newIno(oFS)
		g.link(d, EntryV{Name: "file", Type: ftReg, Loc: Key{f, tInodeItem, 0}})
		g.mkFile(oFS, f)
	}
	fs.flush(false)
	s.fs, s.recs = fs, fs.records(nil)
	s.v = fs.view(s.recs)
	s.img, s.meta = filepath.Join(s.dir, "img"), filepath.Join(s.dir, "meta")
	fs.writeImage(s.img, imgOpts{})
	s.index(c, s.recs)
	dst := filepath.Join(s.dir, "dst")
	must(os.Mkdir(dst, 0755))
	res := c.cli(runOpts{cpu: 60}, "recover", "--metadata", s.meta, s.img, dst)
	if res.Code != 0 {
		c.violated("recovering deep directories: %v", res)
		return
	}
	root, err := os.OpenRoot(dst)
	must(err)
	path := dst
	for i, n := range names {
		path += "/" + n
		sub, err := root.OpenRoot(n)
		if err != nil {
			root.Close()
			if len(path) < 4096 {
				c.violated("recovering deep directories: the one at level %d, with a path of %d bytes, is missing: %v", i+1, len(path), res)
			} else if !strings.Contains(string(res.Err), n) {
				c.violated("recovering deep directories: the one at level %d is missing without a warning: %v", i+1, res)
			} else {
				c.finding("path-max", "directories whose path in the destination exceeds 4095 bytes are not recovered (a warning names them)")
			}
			return
		}
		_, err = sub.Lstat("file")
		if err != nil && len(path) < 4090 {
			c.violated("recovering deep directories: the file at level %d is missing: %v", i+1, res)
		}
		root.Close()
		root = sub
		c.count("evaluations", 1)
		c.seen("deep", i)
	}
	root.Close()
}

// --- C12

// outside snapshots a folder except one subfolder.
func outside(root, except string) string {
	var out []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if p == except {
			return filepath.SkipDir
		}
		if err != nil {
			out = append(out, p+": "+err.Error())
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%q %v ino %d nlink %d uid %d size %d mtime %d", p, fi.Mode(), st.Ino, st.Nlink, st.Uid, st.Size, st.Mtim.Nano())
		if fi.IsDir() && filepath.Dir(except) == p {
			s = fmt.Sprintf("%q %v ino %d uid %d", p, fi.Mode(), st.Ino, st.Uid)
		}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			s += " -> " + t
		case fi.Mode().IsRegular() && fi.Size() < 1<<20:
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %q", b)
		}
		out = append(out, s)
		return nil
	})
	return strings.Join(out, "\n")
}

const nobody = 65534

func chownAll(root string, uid int) {
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		must(err)
		must(os.Lchown(p, uid, uid))
		return nil
	})
}

func checkC12(c *Check) {
	c.par(c.pick(150, 2500), func(i int) {
		r := c.rng(i)
		bs := blockSizes[r.Intn(2)]
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		must(os.Chmod(d, 0755))
		fs := newFS(r, bs, sizeFor(r, bs, 0))
		generate(fs, genOpts{entries: 8, subvols: 1, orphans: 1, gens: 0, noRename: true})
		base := filepath.Join(d, "w")
		sent := filepath.Join(base, "sentinel")
		dst := filepath.Join(base, "a", "dst")
		must(os.MkdirAll(dst, 0755))
		must(os.MkdirAll(filepath.Join(sent, "sub", "sub2"), 0755))
		for _, n := range []string{"f", "victim", "sub/f", "sub/victim", "sub/sub2/x"} {
			must(os.WriteFile(filepath.Join(sent, n), []byte("sentinel "+n), 0644))
		}
		must(os.Symlink(filepath.Join(sent, "f"), filepath.Join(sent, "link")))
		must(os.WriteFile(filepath.Join(base, "a", "f"), []byte("next to the destination"), 0644))
		must(os.WriteFile(filepath.Join(base, "f"), []byte("above"), 0644))
		must(os.MkdirAll(filepath.Join(base, "a", "dst2"), 0755))
		must(os.WriteFile(filepath.Join(base, "a", "dst2", "f"), []byte("similar name"), 0644))
		// Hostile metadata
		g := &genState{fs: fs, r: r, o: genOpts{maxFile: 3}, depth: map[dirRef]int{}}
		roots := []dirRef{{oFS, 256}}
		for _, id := range fs.view(fs.records(nil)).subvols() {
			roots = append(roots, dirRef{id, 256})
		}
		rootOf := func() dirRef { return roots[r.Intn(len(roots))] }
		put := func(dd dirRef, e EntryV, forge int) { // forge: pack into an item under any hash, name checks off
			h := uint64(refNameHash([]byte(e.Name)))
			if forge > 0 {
				h = uint64(r.Uint32())
			}
			k := Key{dd.ino, tDirItem, h}
			var es []EntryV
			if it := fs.get(dd.owner, k); it != nil {
				es = append(es, it.v.([]EntryV)...)
			}
			es = append(es, e)
			fs.set(dd.owner, k, encEntries(es, fs.Gen), es)
		}
		mkdir := func(dd dirRef, name string, forge int) dirRef {
			ino := g.newIno(dd.owner)
			put(dd, EntryV{Name: name, Type: ftDir, Loc: Key{ino, tInodeItem, 0}}, forge)
			g.setInode(dd.owner, ino, g.attrs(sIFDIR))
			return dirRef{dd.owner, ino}
		}
		mkfile := func(dd dirRef, name string, forge int) {
			ino := g.newIno(dd.owner)
			put(dd, EntryV{Name: name, Type: ftReg, Loc: Key{ino, tInodeItem, 0}}, forge)
			b := []byte("hostile content of " + name)
			iv := g.attrs(sIFREG)
			iv.Size = uint64(len(b))
			if r.Intn(4) == 0 {
				iv.Size = 0
				fs.set(dd.owner, Key{ino, tInodeItem, 0}, encInode(iv), iv)
				return
			}
			fs.set(dd.owner, Key{ino, tInodeItem, 0}, encInode(iv), iv)
			ex := ExtentV{Type: exInline, Inline: b, RAM: uint64(len(b))}
			fs.set(dd.owner, Key{ino, tExtentData, 0}, encExtent(ex, fs.Gen), ex)
		}
		mklink := func(dd dirRef, name, target string, forge int) {
			ino := g.newIno(dd.owner)
			put(dd, EntryV{Name: name, Type: ftSymlink, Loc: Key{ino, tInodeItem, 0}}, forge)
			iv := g.attrs(sIFLNK)
			iv.Size = uint64(len(target))
			fs.set(dd.owner, Key{ino, tInodeItem, 0}, encInode(iv), iv)
			ex := ExtentV{Type: exInline, Inline: []byte(target), RAM: uint64(len(target))}
			fs.set(dd.owner, Key{ino, tExtentData, 0}, encExtent(ex, fs.Gen), ex)
		}
		targets := func(depth int) string { // to somewhere outside
			up := strings.Repeat("../", depth+1+r.Intn(2))
			switch r.Intn(8) {
			case 0:
				return sent
			case 1:
				return filepath.Join(sent, "f")
			case 2:
				return filepath.Join(sent, "new"+randName(r, 4))
			case 3:
				return up + "sentinel/victim"
			case 4:
				return up
			case 5:
				return up + "f"
			case 6:
				return filepath.Join(sent, "link")
			}
			return "../dst2"
		}
		var tricks []string
		for n := 1 + r.Intn(4); n > 0; n-- {
			dd := rootOf()
			depth := 0
			for r.Intn(3) == 0 {
				dd = mkdir(dd, randName(r, 5), 0)
				depth++
			}
			k := r.Intn(9)
			tricks = append(tricks, fmt.Sprint(k))
			switch k {
			case 0: // names that leave
				// Also ones that only lead out once something is cut off, decoded or replaced
				for _, nm := range []string{"..", ".", "", "../f", "../../f", "../../sentinel/f", "x/../../f", "/f", sent + "/f", "..\x00", "a\x00../f", "../dst2/f", "./../f", "\\..\\f",
					"..\x00/f", "../\x00", " ..", ".. ", "..\n", "\t..", "\x00..", "..\\", "..\\f", "..\x00\x00\x00", ".\x00.", ". .", "..;", "%2e%2e", "%2e%2e%2ff", "\uff0e\uff0e", "..\xff", "\xff..", "..\u200b", "\ufeff..", "\"..\"", "..:f", "..\u2215f", "~", "~root", "$HOME", "-f", "...", "..\\..\\f"} {
					switch r.Intn(5) {
					case 0:
						mkfile(dd, nm, r.Intn(2))
					case 1, 2, 3:
						nd := mkdir(dd, nm, r.Intn(2))
						mkfile(nd, "f", 0)
						mkfile(nd, randName(r, 6), 0)
						if r.Intn(3) == 0 { // two levels up
							mkfile(mkdir(nd, nm, r.Intn(2)), randName(r, 6), 0)
						}
					case 4:
						mklink(dd, nm, targets(depth), r.Intn(2))
					}
				}
			case 1, 2: // a link and a directory of one name
				nm := randName(r, 4)
				f1, f2 := r.Intn(2), r.Intn(2)
				t := []string{sent, strings.Repeat("../", depth+1), strings.Repeat("../", depth+2) + "sentinel/sub", "../dst2"}[r.Intn(4)]
				if r.Intn(2) == 0 {
					mklink(dd, nm, t, f1)
					nd := mkdir(dd, nm, f2)
					mkfile(nd, "f", 0)
					mkfile(nd, "victim", 0)
					mklink(mkdir(nd, "sub", 0), "victim", "x", 0)
				} else {
					nd := mkdir(dd, nm, f2)
					mkfile(nd, "f", 0)
					mkfile(nd, "victim", 0)
					mklink(dd, nm, t, f1)
				}
			case 3, 4: // a link and a file of one name
				nm := randName(r, 4)
				t := []string{sent + "/f", sent + "/victim", sent + "/fresh", strings.Repeat("../", depth+1) + "f", "../dst2/f", sent + "/link"}[r.Intn(6)]
				mklink(dd, nm, t, r.Intn(2))
				mkfile(dd, nm, r.Intn(2))
				if r.Intn(2) == 0 {
					mklink(dd, nm, t, 1)
				}
			case 5: // the name of an unreferenced subvolume's directory
				for _, id := range fs.view(fs.records(nil)).subvols() {
					mklink(dirRef{oFS, 256}, fmt.Sprint("subvol_", id), sent, r.Intn(2))
				}
			case 6: // chains of links
				mklink(dd, "l1", targets(depth), 0)
				mklink(dd, "l2", "l1", 0)
				mkfile(mkdir(dd, "l2", 1), "f", 0)
				mkfile(mkdir(dd, "l1", 1), "f", 0)
			case 7: // subvolume entries in the place of a link
				nm := randName(r, 4)
				mklink(dd, nm, sent, 1)
				s := roots[r.Intn(len(roots))]
				put(dd, EntryV{Name: nm, Type: ftDir, Loc: Key{s.owner, tRootItem, ^uint64(0)}}, 1)
				mkfile(s, "victim", 0)
			case 8: // a directory entry that names the parent
				put(dd, EntryV{Name: "up", Type: ftDir, Loc: Key{dd.ino, tInodeItem, 0}}, 0)
				put(dd, EntryV{Name: "up2", Type: ftDir, Loc: Key{256, tInodeItem, 0}}, 1)
			}
		}
		fs.flush(true)
		recs := fs.records(nil)
		v := fs.view(recs)
		meta, img := filepath.Join(d, "meta"), filepath.Join(d, "img")
		buildIndex(meta, recsOf(recs))
		fs.writeImage(img, imgOpts{})
		// Something in the way in the destination
		var pre []string
		clob := r.Intn(3) > 0
		v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
			if r.Intn(3) > 0 || !recoverable(n.E) || strings.Contains(n.Path, "\x00") || strings.Contains("/"+n.Path+"/", "/../") {
				return
			}
			p := filepath.Join(dst, n.Path)
			if !strings.HasPrefix(p, dst+"/") || strings.HasPrefix(n.Path, "/") {
				return
			}
			// The folder must exist below the destination, without links
			par := filepath.Dir(p)
			rel, _ := filepath.Rel(dst, par)
			x := dst
			if rel != "." {
				for _, comp := range strings.Split(rel, "/") {
					x += "/" + comp
					if fi, err := os.Lstat(x); err == nil && !fi.IsDir() {
						return
					}
					if os.Mkdir(x, 0755); false {
						return
					}
				}
			}
			var err error
			kind := r.Intn(4)
			switch kind {
			case 0:
				err = os.Symlink([]string{sent, sent + "/f", sent + "/fresh2", sent + "/sub", "../../f", base}[r.Intn(6)], p)
			case 1:
				err = os.Link(filepath.Join(sent, "victim"), p)
			case 2:
				err = os.Symlink(filepath.Join(sent, "sub"), p)
			case 3:
				err = os.Link(filepath.Join(sent, "link"), p)
			}
			if err == nil {
				pre = append(pre, fmt.Sprint(kind, " ", n.Path))
			}
		})
		for _, id := range v.subvols() {
			if r.Intn(3) == 0 {
				os.Symlink(sent, filepath.Join(dst, fmt.Sprint("subvol_", id)))
			}
		}
		chownAll(base, nobody)
		given := dst
		if r.Intn(6) == 0 {
			given = dst + "/"
		}
		a := []string{"recover", "--metadata", meta, img, given}
		if clob {
			a = append(a, "--clobber")
		}
		for round := 0; round < 2; round++ {
			// Link counts of hard links change when names in the destination go;
			// that is a change inside.
			before := stripNlink(outside(d, dst))
			res := c.cli(runOpts{uid: nobody, dir: []string{base, dst, "/"}[r.Intn(3)], cpu: 60}, a...)
			after := stripNlink(outside(d, dst))
			if before != after {
				c.violated("case %d (tricks %v, in the way %q, round %d): something outside the destination changed:\n%s\n%v", i, tricks, pre, round, diffLines(before, after), res)
				return
			}
			c.count("evaluations", 1)
			c.seen("case", i, round)
		}
		c.seen("trick_sets", strings.Join(tricks, ","))
		c.count("objects_in_the_way", len(pre))
		if i < 3 {
			c.sample(map[string]any{"tricks": tricks, "in the way": pre, "clobber": clob})
		}
	})
}

func stripNlink(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		if a := strings.Index(l[i], " nlink "); a >= 0 {
			if b := strings.Index(l[i][a+7:], " "); b >= 0 {
				l[i] = l[i][:a] + l[i][a+7+b:]
			}
		}
	}
	return strings.Join(l, "\n")
}

// --- C13

func checkC13(c *Check) {
	c.par(c.pick(40, 500), func(i int) {
		r := c.rng(i)
		s := c.makeSetup(fmt.Sprint("c", i), r, genOpts{entries: 20 + r.Intn(60), subvols: r.Intn(3), orphans: r.Intn(3), gens: r.Intn(3),
			noRename: true, specials: true, deep: 3, collide: true, wildNames: r.Intn(3) == 0, wide: i % 7 / 6 * (70 + r.Intn(200))}, i%4 == 0, true, nil)
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		v := s.v
		dst := filepath.Join(s.dir, "dst")
		aside := filepath.Join(s.dir, "aside")
		must(os.MkdirAll(dst, 0755))
		must(os.MkdirAll(aside, 0755))
		must(os.WriteFile(filepath.Join(aside, "t"), []byte("target"), 0644))
		ref := func() *recCmp { return c.newRecCmp(fmt.Sprintf("case %d", i), v, dst) }
		multi := ref().refs
		// Put things in the way.
		type preObj struct{ path, kind string }
		var pre []preObj
		blocked := map[string]bool{} // paths that cannot be restored without overwriting
		dirInWay := map[string]bool{}
		isDirNode := map[string]bool{}
		mainNames := map[string]bool{}
		for _, e := range v.entries(oFS, 256) {
			mainNames[e.Name] = true
		}
		// walk visits the main tree and the subvolumes that get a directory of
		// their own.
		var subvols []string
		walk := func(fn func(n Node)) {
			seen := map[[2]uint64]bool{}
			subvols = nil
			v.walk(oFS, 256, "", seen, fn)
			for _, id := range v.subvols() {
				if name := fmt.Sprint("subvol_", id); multi[[2]uint64{id, 256}] == 0 && !mainNames[name] {
					c.count("separate_subvolumes", 1)
					subvols = append(subvols, name)
					v.walk(id, 256, name+"/", seen, fn)
				}
			}
		}
		walk(func(n Node) {
			if n.E.Type == ftDir {
				isDirNode[n.Path] = true
			}
		})
		old := time.Unix(1300000000, 0)
		ownInside := map[string]bool{} // what stays even when overwriting
		for _, name := range subvols {
			if r.Intn(3) == 0 {
				must(os.WriteFile(filepath.Join(dst, name), []byte("in the way of a subvolume"), 0600))
				pre = append(pre, preObj{name, "file for a subvolume"})
				blocked[name] = true
			}
		}
		walk(func(n Node) {
			if r.Intn(3) > 0 || !recoverable(n.E) || multi[[2]uint64{n.Owner, n.Ino}] > 1 {
				return
			}
			p := filepath.Join(dst, n.Path)
			for x := filepath.Dir(n.Path); x != "."; x = filepath.Dir(x) {
				if blocked[x] {
					return
				}
			}
			if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
				return
			}
			if _, err := os.Lstat(p); err == nil {
				return
			}
			k := r.Intn(9)
			if n.E.Type == ftReg && r.Intn(3) == 0 {
				k = 9
			}
			if n.E.Type == ftDir && r.Intn(2) == 0 {
				k = 8
			}
			kind := ""
			var err error
			size, _ := v.segs(n.Owner, n.Ino)
			switch k {
			case 0: // longer than what is recovered
				kind = "longer file"
				b := make([]byte, min(int(size&0xffffff), 1<<20)+5000)
				fillBytes(r, b)
				err = os.WriteFile(p, b, 0640)
			case 1:
				kind = "short file"
				err = os.WriteFile(p, []byte("old"), 0600)
			case 2:
				kind = "empty file"
				err = os.WriteFile(p, nil, 0644)
			case 3:
				kind = "read-only file"
				err = os.WriteFile(p, []byte("read only old content"), 0444)
			case 4:
				kind = "dangling link"
				err = os.Symlink("nowhere/at/all", p)
			case 5:
				kind = "link to a file aside"
				err = os.Symlink(filepath.Join(aside, "t"), p)
			case 6:
				kind = "hard link"
				err = os.Link(filepath.Join(aside, "t"), p)
			case 7:
				kind = "link to itself"
				err = os.Symlink(filepath.Base(p), p)
			case 9: // what looks up to date but is not
				kind = "file of the same size and time"
				b := make([]byte, min(int(size&0xffffff), 1<<20))
				fillBytes(r, b)
				err = os.WriteFile(p, b, 0644)
			case 8:
				kind = "directory"
				err = os.Mkdir(p, 0755)
				if err == nil && n.E.Type == ftDir && r.Intn(2) == 0 {
					os.WriteFile(filepath.Join(p, "own file of the user"), []byte("keep"), 0644)
					pre = append(pre, preObj{n.Path + "/own file of the user", "own file"})
				}
			}
			if err != nil {
				return
			}
			switch iv := v.inode(n.Owner, n.Ino); {
			case k == 9 && iv != nil:
				t := time.Unix(iv.Mtime.Sec, int64(iv.Mtime.Nsec))
				os.Chtimes(p, t, t)
			case k != 8:
				os.Chtimes(p, old, old)
			}
			if k == 8 && n.E.Type != ftDir {
				if r.Intn(2) == 0 {
					os.WriteFile(filepath.Join(p, "own file"), []byte("keep"), 0644)
					ownInside[n.Path] = true
				}
				dirInWay[n.Path] = true
			}
			if k != 8 || n.E.Type != ftDir {
				pre = append(pre, preObj{n.Path, kind})
				blocked[n.Path] = true
			}
		})
		os.WriteFile(filepath.Join(dst, "unrelated file of the user"), []byte("mine"), 0640)
		pre = append(pre, preObj{"unrelated file of the user", "own file"})
		snap := func(p string) string {
			var st syscall.Stat_t
			if err := syscall.Lstat(p, &st); err != nil {
				return err.Error()
			}
			out := fmt.Sprintf("mode %o size %d mtime %d ino %d uid %d", st.Mode, st.Size, st.Mtim.Nano(), st.Ino, st.Uid)
			switch st.Mode & syscall.S_IFMT {
			case syscall.S_IFLNK:
				t, _ := os.Readlink(p)
				out += " -> " + t
			case syscall.S_IFREG:
				b, _ := os.ReadFile(p)
				out += fmt.Sprintf(" %x", b)
			case syscall.S_IFDIR:
				out = "directory " + treeSum(p)
			}
			return out
		}
		chownAll(dst, nobody)
		chownAll(aside, nobody)
		before := map[string]string{}
		for _, p := range pre {
			before[p.path] = snap(filepath.Join(dst, p.path))
		}
		asideBefore := snap(filepath.Join(aside, "t"))
		// Without the option
		mod := func(rc *recCmp, clobber bool) {
			for _, p := range pre {
				if !clobber || p.kind == "own file" || dirInWay[p.path] {
					rc.inWay[p.path] = true
				}
			}
		}
		rounds := 1 + r.Intn(2)
		for k := 0; k < rounds; k++ {
			res := c.cli(runOpts{cpu: 100}, "recover", "--metadata", s.meta, s.img, dst)
			for _, p := range pre {
				if now := snap(filepath.Join(dst, p.path)); now != before[p.path] {
					c.violated("case %d: recovering without --clobber changed %q (%s):\n%.300s\n->\n%.300s\n%v", i, p.path, p.kind, before[p.path], now, res)
					return
				}
				c.count("evaluations", 1)
				c.seen("case", i, "kept", p.path)
				c.seen("kind_in_the_way", p.kind)
			}
			rc := ref()
			rc.what += " without --clobber"
			mod(rc, false)
			rc.all()
			if rc.stop {
				c.violated("case %d: %v", i, res)
				return
			}
		}
		// With it
		r1 := c.cli(runOpts{cpu: 100}, "recover", "--clobber", "--metadata", s.meta, s.img, dst)
		rc := ref()
		rc.what += " with --clobber"
		mod(rc, true)
		rc.all()
		if rc.stop {
			c.violated("case %d: things in the way were %q: %v", i, pre, r1)
			return
		}
		for _, p := range pre {
			if p.kind != "own file" && !ownInside[p.path] {
				continue
			}
			if now := snap(filepath.Join(dst, p.path)); now != before[p.path] {
				c.violated("case %d: recovering with --clobber changed %q, which is in the way of nothing, or a directory with such a file:\n%.300s\n->\n%.300s\n%v", i, p.path, before[p.path], now, r1)
				return
			}
			c.count("own_files_kept_when_overwriting", 1)
		}
		if now := snap(filepath.Join(aside, "t")); now != asideBefore {
			c.violated("case %d: a file elsewhere that something in the way led to changed: %v", i, r1)
		}
		t1 := treeSum(dst)
		r2 := c.cli(runOpts{cpu: 100}, "recover", "--clobber", "--metadata", s.meta, s.img, dst)
		if t2 := treeSum(dst); t1 != t2 {
			c.violated("case %d: repeating a recovery gives another tree:\n%s\n%v", i, diffLines(t1, t2), r2)
		}
		r3 := c.cli(runOpts{cpu: 100}, "recover", "--metadata", s.meta, s.img, dst)
		if t3 := treeSum(dst); t1 != t3 {
			c.violated("case %d: another recovery without --clobber gives another tree:\n%s\n%v", i, diffLines(t1, t3), r3)
		}
		if i < 3 {
			c.sample(map[string]any{"in the way": len(pre), "files": rc.files, "example": pre[0]})
		}
	})
}

// --- C14

// fileEnds picks the end of the used part of some file's extent, where the
// image may end without harm to that file; sometimes one byte less.
func fileEnds(v *View, r *rand.Rand) uint64 {
	var ends []uint64
	v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
		if n.E.Type != ftReg || v.inode(n.Owner, n.Ino) == nil {
			return
		}
		_, ss := v.segs(n.Owner, n.Ino)
		for _, s := range ss {
			if s.inline == nil && s.bad == "" {
				ends = append(ends, s.phys+s.n)
				if s.n%4096 != 0 { // the rest of the extent is not needed
					ends = append(ends, s.phys+s.n, s.phys+s.n, s.phys+s.n)
				}
			}
		}
	})
	if len(ends) == 0 {
		return 0
	}
	e := ends[r.Intn(len(ends))]
	if r.Intn(5) == 0 {
		e--
	}
	return e
}

func checkC14(c *Check) {
	c.par(c.pick(140, 1400), func(i int) {
		r := c.rng(i)
		kind := i % 7
		o := genOpts{entries: 40 + r.Intn(60), subvols: r.Intn(3), orphans: r.Intn(3), gens: r.Intn(3), noRename: true, deep: 3,
			maxFile: 10, encoded: kind == 3 || kind == 5, missing: kind == 4 || kind == 5, far: i%12 > 8, diskLinks: i%4 < 2}
		var encLink uint64
		s := c.makeSetup(fmt.Sprint("c", i), r, o, false, true, func(fs *FS) {
			if i%3 == 1 { // files of one name that cannot be restored, in many places
				v := fs.view(fs.records(nil))
				dirs := []dirRef{{oFS, 256}}
				v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
					if n.E.Type == ftDir {
						_, ino := n.E.target(n.Owner)
						dirs = append(dirs, dirRef{n.Owner, ino})
					}
				})
				g := &genState{fs: fs, r: r}
				name := "namesake" + randName(r, 4)
				for k := 2 + r.Intn(6); k > 0; k-- {
					d := dirs[r.Intn(len(dirs))]
					ino := g.newIno(d.owner)
					if !g.link(d, EntryV{Name: name, Type: ftReg, Loc: Key{ino, tInodeItem, 0}}) {
						continue
					}
					iv := g.attrs(sIFREG)
					iv.Size = 8192
					g.setInode(d.owner, ino, iv)
					ex := ExtentV{Type: 1, RAM: 8192, Disk: 1<<50 + uint64(k)<<20, DiskNum: 8192, Num: 8192}
					fs.set(d.owner, Key{ino, tExtentData, 0}, encExtent(ex, fs.Gen), ex)
				}
			}
			if !o.encoded {
				return
			}
			// An encoded symbolic link
			g := &genState{fs: fs, r: r}
			encLink = g.newIno(oFS)
			if g.link(dirRef{oFS, 256}, EntryV{Name: "enclink" + randName(r, 5), Type: ftSymlink, Loc: Key{encLink, tInodeItem, 0}}) {
				g.setInode(oFS, encLink, g.attrs(sIFLNK))
				ex := ExtentV{Type: exInline, Inline: []byte("abc"), RAM: 9, Compr: uint8(r.Intn(2)), Encr: 0}
				if ex.Compr == 0 {
					ex.Encr = 1
				}
				fs.set(oFS, Key{encLink, tExtentData, 0}, encExtent(ex, fs.Gen), ex)
			}
		})
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		recs := s.recs
		img := s.img
		imgEnd := ^uint64(0)
		badLo, badHi := uint64(0), uint64(0) // unjudged physical range
		desc := ""
		switch kind {
		case 0, 5: // the image ends early
			imgEnd = uint64(r.Int63n(int64(s.fs.Size)))
			if len(s.fs.writes) > 0 && r.Intn(3) > 0 { // inside some file's data
				w := s.fs.writes[r.Intn(len(s.fs.writes))]
				imgEnd = w.off + uint64(r.Int63n(int64(w.n+1)))
			}
			if r.Intn(3) == 0 { // right behind, or one byte into, what a file needs
				if e := fileEnds(s.v, r); e > 0 {
					imgEnd = e
				}
			}
			if r.Intn(3) == 0 { // inside the target of a link
				var at []uint64
				s.v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
					iv := s.v.inode(n.Owner, n.Ino)
					if n.E.Type != ftSymlink || iv == nil || iv.Size < 2 {
						return
					}
					for _, e := range s.v.extents(n.Owner, n.Ino) {
						if _, p, ok := s.v.chunkPhys(e.Disk); ok && e.Type == exReg && e.Disk != 0 {
							at = append(at, p+e.Off+1+uint64(r.Int63n(int64(iv.Size-1))))
						}
					}
				})
				if len(at) > 0 {
					imgEnd = at[r.Intn(len(at))]
					c.count("images_ending_inside_a_link", 1)
				}
			}
			must(os.Truncate(img, int64(imgEnd)))
			desc = fmt.Sprintf("image cut to %d bytes", imgEnd)
		case 1: // chunks missing from the metadata
			recs = map[recKey]Rec{}
			gone := map[uint64]bool{}
			for k, rec := range s.recs {
				if k.Owner == oChunk && k.Key.Type == tChunkItem {
					if g, ok := gone[k.Key.Off]; !ok {
						gone[k.Key.Off] = refNameHash([]byte(fmt.Sprint(i, k.Key.Off)))%3 == 0
						_ = g
					}
					if gone[k.Key.Off] {
						continue
					}
				}
				recs[k] = rec
			}
			s.index(c, recs)
			desc = "chunks missing"
		case 2: // reads fail: the program's own address space has unmapped areas
			img = "/proc/self/mem"
			desc = "reading fails"
			badLo, badHi = 0, 0x2000000
		}
		v := s.fs.view(recs)
		dst := filepath.Join(s.dir, "dst")
		o2 := runOpts{cpu: 100}
		a := []string{"recover", "--metadata", s.meta, img, dst}
		if r.Intn(3) == 0 {
			a = append(a, "--clobber")
		}
		res := c.cli(o2, a...)
		lines := strings.Split(string(res.Err), "\n")
		warned := func(path, base string) bool {
			for _, l := range lines {
				if strings.Contains(l, path) || len(base) >= 4 && strings.Contains(l, base) || strings.Contains(l, fmt.Sprintf("%q", path)) {
					return true
				}
			}
			return false
		}
		// Names can span lines only if they hold line breaks, which these do not.
		nbad, ngood, nunsure := 0, 0, 0
		byBase := map[string]int{}
		rc := c.newRecCmp(fmt.Sprintf("case %d (%s)", i, desc), v, dst)
		rc.judge = func(rel string, n Node, path string) bool {
			why := ""
			unsure := false
			if n.E.Type == ftReg {
				_, ss := v.segs(n.Owner, n.Ino)
				if v.inode(n.Owner, n.Ino) == nil {
					why = "no inode"
				}
				for _, sg := range ss {
					switch {
					case sg.bad != "":
						why = sg.bad
					case sg.inline != nil:
					case sg.phys < badHi && badHi > 0 || kind == 2 && sg.phys+sg.n > 0x6000000:
						unsure = true
					case kind == 2:
						why = "read error"
					case sg.phys+sg.n > imgEnd:
						why = "beyond the image"
					}
					_ = badLo
				}
			} else if n.E.Type == ftSymlink {
				if _, ok := v.linkTarget(n.Owner, n.Ino); !ok {
					why = "link target not decodable"
				} else {
					for _, e := range v.extents(n.Owner, n.Ino) {
						if e.Encr != 0 {
							why = "link target encrypted"
						}
						if e.Type != exReg || e.Disk == 0 || e.Compr != 0 || e.Encr != 0 {
							continue
						}
						_, p, _ := v.chunkPhys(e.Disk)
						p += e.Off
						end := p + v.inode(n.Owner, n.Ino).Size
						switch {
						case p < badHi && badHi > 0 || kind == 2 && end > 0x6000000:
							unsure = true
						case kind == 2:
							why = "link read error"
						case end > imgEnd:
							why = "link beyond the image"
						}
					}
				}
			}
			if unsure && why == "" {
				nunsure++
				return false
			}
			if why == "" {
				ngood++
				if strings.Contains(string(res.Err), path+":") && len(filepath.Base(path)) >= 4 && strings.Contains(string(res.Err), "failed") {
					rc.bad("%q is restored, but a warning names it:\n%v", rel, res)
				}
				return true
			}
			nbad++
			c.count("evaluations", 1)
			c.count("files_that_cannot_be_restored", 1)
			c.seen("reason", why)
			c.seen("case", i, rel)
			byBase[filepath.Base(path)]++
			if !warned(path, filepath.Base(path)) {
				rc.bad("%q cannot be restored (%s), but no warning names it:\n%v", rel, why, res)
			}
			return false
		}
		rc.all()
		if rc.stop {
			c.violated("case %d: %v", i, res)
		}
		for b, n := range byBase { // each of several files of one name
			got := strings.Count(string(res.Err), b)
			if n > 1 {
				c.count("namesakes", n)
				if got < n {
					c.violated("case %d: %d files named %q cannot be restored, but warnings name only %d:\n%v", i, n, b, got, res)
				}
			}
		}
		if nbad+nunsure == 0 {
			c.count("runs_without_anything_to_report", 1)
			if bytes.Contains(res.Err, []byte("failed")) {
				c.violated("case %d: everything is restored, but recover warns:\n%v", i, res)
			}
		}
		c.count("files_restored_next_to_bad_ones", ngood)
		if i < 4 {
			c.sample(map[string]any{"fault": desc, "unrestorable": nbad, "restored": ngood})
		}
	})
	_ = rand.Int
}
