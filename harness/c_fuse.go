package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

func init() {
	checks["C15"] = checkDef{fn: checkC15, level: "exploration", min: 8000,
		rule: "generated trees served by the real mount command to an emulated kernel; random histories of lookup, forget, listing with several buffer sizes, stat, readlink and attribute requests; every reply is compared with the model; an evaluation is one compared reply, non-trivial if it names an object"}
	checks["C16"] = checkDef{fn: checkC16, level: "fault_enumeration", min: 8000,
		rule: "generated extent layouts read through the real mount at extent boundaries, random and sequential offsets, with whole images, images cut off, without an image and with chunks missing; an evaluation is one READ reply compared byte by byte, non-trivial if it returned data or had to fail"}
	checks["C17"] = checkDef{fn: checkC17, level: "exploration", min: 15000,
		rule: "the race-instrumented mount command serves many concurrent clients that make the same first accesses at the same time and then random ones; an evaluation is one reply compared with the model; race reports and crashes of the serving process are violations"}
	checks["C18"] = checkDef{fn: checkC18, level: "exploration", min: 2500,
		rule: "every mutating FUSE request in many variants on every kind of node and handle, mixed with reads; an evaluation is one mutating request, all of which must be refused; image, metadata and visible tree are compared afterwards"}
}

func fuseRdev(rdev uint64) uint32 {
	major, minor := uint32(rdev>>20), uint32(rdev&0xfffff)
	return minor&0xff | major<<8 | (minor&^0xff)<<12
}

// cmpAttr compares attributes with the inode's recorded ones.
func cmpAttr(a kattr, iv *InodeV) string {
	w := kattr{Ino: a.Ino, Size: iv.Size, Atime: iv.Atime.Sec, Mtime: iv.Mtime.Sec, Ctime: iv.Ctime.Sec,
		An: iv.Atime.Nsec, Mn: iv.Mtime.Nsec, Cn: iv.Ctime.Nsec, Mode: iv.Mode, Nlink: iv.Nlink, UID: iv.UID, GID: iv.GID, Rdev: fuseRdev(iv.Rdev)}
	if w.Nlink == 0 && a.Nlink == 1 { // the FUSE library does not pass on zero
		w.Nlink = 1
	}
	if a != w {
		return fmt.Sprintf("attributes %+v instead of %+v", a, w)
	}
	return ""
}

func dtype(t uint8) uint32 {
	switch t {
	case ftDir:
		return sIFDIR >> 12
	case ftChr:
		return sIFCHR >> 12
	case ftBlk:
		return sIFBLK >> 12
	case ftFifo:
		return sIFIFO >> 12
	case ftSock:
		return sIFSOCK >> 12
	case ftSymlink:
		return sIFLNK >> 12
	}
	return sIFREG >> 12
}

func fuseName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.ContainsAny(n, "/\x00")
}

// kclient compares the replies of a mount with the model.
type kclient struct {
	c    *Check
	m    *kmount
	v    *View
	what string
	stop atomic.Bool
	// reading
	nodev    bool
	imgSize  uint64
	segsMu   sync.Mutex
	segCache map[[2]uint64]*fileSegs
	forgets  bool
	quiet    bool     // the replies are not what is counted
	ids      sync.Map // parent/name → node, while nothing is forgotten
}

type fileSegs struct {
	size uint64
	ss   []seg
	lo   map[uint64]bool
}

type knode struct {
	id         uint64
	owner, ino uint64
	e          EntryV
	path       string
}

func (k *kclient) bad(format string, a ...any) {
	if t := k.m.trouble(); t != "" {
		format, a = "the serving process crashed: %s", []any{t}
	}
	k.c.violated("%s: "+format, append([]any{k.what}, a...)...)
	k.stop.Store(true)
}

func (k *kclient) eval(kind string, what string) {
	k.c.count("replies_"+kind, 1)
	if k.quiet {
		return
	}
	k.c.count("evaluations", 1)
	if what != "" {
		k.c.seen("case", k.what, kind, what)
	}
}

// look looks up an entry of a directory and compares the reply.
func (k *kclient) look(d knode, e EntryV) (knode, bool) {
	o, i := e.target(d.owner)
	n := knode{owner: o, ino: i, e: e, path: d.path + "/" + e.Name}
	id, a, errno := k.m.lookup(d.id, e.Name)
	iv := k.v.inode(o, i)
	k.eval("lookup", n.path)
	if iv == nil {
		if errno == 0 {
			k.bad("lookup of %q, whose inode was not found, succeeded with %+v", n.path, a)
		}
		return n, false
	}
	if errno != 0 || id == 0 {
		k.bad("lookup of %q: error %d, node %d", n.path, errno, id)
		return n, false
	}
	if s := cmpAttr(a, iv); s != "" {
		k.bad("lookup of %q: %s", n.path, s)
		return n, false
	}
	if !k.forgets {
		key := fmt.Sprintf("%d/%s", d.id, e.Name)
		if was, ok := k.ids.LoadOrStore(key, id); ok && was.(uint64) != id {
			k.bad("lookup of %q gives node %d and node %d", n.path, was, id)
			return n, false
		}
	}
	n.id = id
	return n, true
}

func (k *kclient) names(d knode) map[string]EntryV {
	w := map[string]EntryV{}
	for _, e := range k.v.entries(d.owner, d.ino) {
		if fuseName(e.Name) {
			w[e.Name] = e
		}
	}
	return w
}

// list lists a directory and compares the result.
func (k *kclient) list(d knode, size uint32, plus bool) {
	want := k.names(d)
	got, errno := k.m.readdir(d.id, size, plus)
	k.eval("readdir", fmt.Sprint(d.path, size, plus))
	if errno != 0 {
		k.bad("listing of %q: error %d", d.path, errno)
		return
	}
	seen := map[string]bool{}
	for _, x := range got {
		if seen[x.Name] {
			k.bad("listing of %q with a buffer of %d has %q twice", d.path, size, x.Name)
			return
		}
		seen[x.Name] = true
		if x.Name == "." || x.Name == ".." {
			continue // the kernel ignores what is told of these
		}
		e, ok := want[x.Name]
		if !ok {
			k.bad("listing of %q has %q, which was not recorded", d.path, x.Name)
			return
		}
		if x.Type != dtype(e.Type) {
			k.bad("listing of %q: %q has type %d instead of %d", d.path, x.Name, x.Type, dtype(e.Type))
			return
		}
		if plus && x.Node != 0 {
			o, i := e.target(d.owner)
			iv := k.v.inode(o, i)
			if iv == nil {
				k.bad("listing of %q has attributes for %q: %+v", d.path, x.Name, x.Attr)
				return
			}
			if s := cmpAttr(x.Attr, iv); s != "" {
				k.bad("listing of %q: %q: %s", d.path, x.Name, s)
				return
			}
			if k.forgets {
				k.m.forget(x.Node, 1)
			}
		}
	}
	for n := range want {
		if !seen[n] {
			k.bad("listing of %q with a buffer of %d lacks %q", d.path, size, n)
			return
		}
	}
	k.c.count("entries_listed", len(got))
}

// absent looks up names that do not exist.
func (k *kclient) absent(r *rand.Rand, d knode) {
	want := k.names(d)
	var cand []string
	for n := range want {
		cand = append(cand, n+"x", n[:len(n)-1], strings.ToUpper(n), strings.ToLower(n), n+" ", " "+n, n+".")
		if len(cand) > 20 {
			break
		}
	}
	sort.Strings(cand)
	cand = append(cand, "nonexistent", "rescue", "metadata", "a")
	for t := 0; t < 3; t++ {
		n := cand[r.Intn(len(cand))]
		if _, ok := want[n]; ok || !fuseName(n) || len(n) > 255 {
			continue
		}
		id, _, errno := k.m.lookup(d.id, n)
		k.eval("lookup_absent", "")
		if errno != 2 && !(errno == 0 && id == 0) {
			k.bad("lookup of %q in %q, which does not exist: error %d, node %d", n, d.path, errno, id)
			return
		}
	}
}

// stat compares attributes, link target and extended attributes of a node.
func (k *kclient) stat(r *rand.Rand, n knode) {
	iv := k.v.inode(n.owner, n.ino)
	a, errno := k.m.getattr(n.id, nil)
	k.eval("getattr", n.path)
	if errno != 0 {
		k.bad("stat of %q: error %d", n.path, errno)
		return
	}
	if s := cmpAttr(a, iv); s != "" {
		k.bad("stat of %q: %s", n.path, s)
		return
	}
	if iv.Mode&0170000 == sIFLNK {
		w, ok := k.v.linkTarget(n.owner, n.ino)
		t, errno := k.m.readlink(n.id)
		k.eval("readlink", n.path)
		if ok && (errno != 0 || t != w) || !ok && errno == 0 {
			k.bad("target of %q: %q (error %d) instead of %q (%v)", n.path, t, errno, w, ok)
			return
		}
	}
	xs := k.v.xattrs(n.owner, n.ino)
	var names []string
	size := 0
	for _, x := range xs {
		names = append(names, x.Name)
		size += len(x.Name) + 1
	}
	sort.Strings(names)
	_, need, errno := k.m.xattr(n.id, "", 0)
	k.eval("listxattr", "")
	if errno != 0 || need != uint32(size) {
		k.bad("size of the attribute names of %q: %d (error %d) instead of %d", n.path, need, errno, size)
		return
	}
	l, _, errno := k.m.xattr(n.id, "", uint32(size+r.Intn(3)*100+1))
	var got []string
	for _, b := range bytes.Split(l, []byte{0}) {
		got = append(got, string(b))
	}
	if len(got) > 0 && got[len(got)-1] == "" {
		got = got[:len(got)-1]
	}
	sort.Strings(got)
	k.eval("listxattr", "")
	if errno != 0 || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", names) {
		k.bad("attribute names of %q: %q (error %d) instead of %q", n.path, got, errno, names)
		return
	}
	for _, x := range xs {
		_, need, e1 := k.m.xattr(n.id, x.Name, 0)
		d, _, e2 := k.m.xattr(n.id, x.Name, uint32(len(x.Payload)+1+r.Intn(2)*500))
		k.eval("getxattr", n.path+"\x00"+x.Name)
		if e1 != 0 || e2 != 0 || need != uint32(len(x.Payload)) || !bytes.Equal(d, x.Payload) {
			k.bad("attribute %q of %q: %x (size %d, errors %d, %d) instead of %x", x.Name, n.path, d, need, e1, e2, x.Payload)
			return
		}
	}
	for _, x := range []string{"user.nonexistent", "security.capability"} {
		have := false
		for _, y := range xs {
			have = have || y.Name == x
		}
		if have {
			continue
		}
		_, _, e := k.m.xattr(n.id, x, 100)
		k.eval("getxattr_absent", "")
		if e != 61 {
			k.bad("attribute %q of %q, which does not exist: error %d", x, n.path, e)
			return
		}
	}
}

// root looks up the folder that holds the tree.
func (k *kclient) root() (knode, bool) {
	return k.look(knode{id: 1, path: "", owner: oFS}, EntryV{Name: "rescue", Type: ftDir, Loc: Key{256, tInodeItem, 0}})
}

func (c *Check) fuseOpts(r *rand.Rand) genOpts {
	return genOpts{entries: 20 + r.Intn(80), subvols: r.Intn(5), orphans: r.Intn(2), gens: r.Intn(4), specials: true, xattrs: true,
		collide: r.Intn(2) == 0, badHash: r.Intn(4) == 0, wildNames: r.Intn(2) == 0, missing: r.Intn(3) == 0, deep: 1 + r.Intn(6), encoded: r.Intn(2) == 0}
}

func (c *Check) mustMount(what, dir string, o mountOpts, args ...string) *kmount {
	m, res := c.mount(dir, o, args...)
	if m == nil {
		c.violated("%s: mounting failed: %v", what, res)
	}
	return m
}

func checkC15(c *Check) {
	c.par(c.pick(40, 700), func(i int) {
		r := c.rng(i)
		o := c.fuseOpts(r)
		if i%10 == 3 {
			o.wide, o.badHash = 200+r.Intn(1500), false
		}
		if i%10 == 6 {
			o.chain, o.chainName = 20+r.Intn(100), []int{3, 30, 200}[r.Intn(3)]
		}
		o.scale = i == 14 || i == 31
		s := c.makeSetup(fmt.Sprint("c", i), r, o, i%4 == 0, i%2 == 0, func(fs *FS) {
			if i%5 == 2 {
				addCycles(fs, r)
			}
			if i%7 == 5 {
				c.count("inodes_with_extreme_values", extremeInodes(fs, r))
			}
			if i%4 == 1 { // unusual names
				for n := 0; n < 4; n++ {
					ino := uint64(90000 + n)
					es := []EntryV{{Name: []string{"", ".", "..", "a/b", "/", "nul\x00x", fmt.Sprint("ok-next", n)}[r.Intn(7)], Type: ftReg, Loc: Key{ino, tInodeItem, 0}}}
					if r.Intn(2) == 0 {
						es = append(es, EntryV{Name: fmt.Sprint("after-odd-", n), Type: ftReg, Loc: Key{ino, tInodeItem, 0}})
					}
					fs.set(oFS, Key{256, tDirItem, uint64(7 + n)}, encEntries(es, fs.Gen), es)
					g := &genState{fs: fs, r: r}
					g.setInode(oFS, ino, g.attrs(sIFREG))
				}
			}
			if i%6 == 3 { // a large directory
				g := &genState{fs: fs, r: r, o: genOpts{maxFile: 1}, depth: map[dirRef]int{}}
				ino := g.newIno(oFS)
				g.link(dirRef{oFS, 256}, EntryV{Name: "large", Type: ftDir, Loc: Key{ino, tInodeItem, 0}})
				g.setInode(oFS, ino, g.attrs(sIFDIR))
				n := 700 + r.Intn(2)*r.Intn(4000)
				if i == 9 {
					n = 9000 + r.Intn(9000)
				}
				for ; n > 0; n-- {
					nm := fmt.Sprintf("%d-%s", n, randName(r, 1+r.Intn(100)))
					e := []EntryV{{Name: nm, Type: ftReg, Loc: Key{ino, tInodeItem, 0}}}
					fs.set(oFS, Key{ino, tDirItem, uint64(refNameHash([]byte(nm)))}, encEntries(e, fs.Gen), e)
				}
			}
		})
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		what := fmt.Sprintf("case %d (%s)", i, s.fs.describe())
		a := []string{"--metadata", s.meta}
		if i%2 == 0 {
			a = append(a, s.img)
		}
		m := c.mustMount(what, s.dir, mountOpts{}, a...)
		if m == nil {
			return
		}
		k := &kclient{c: c, m: m, v: s.v, what: what, forgets: i%3 == 1}
		defer m.finish(what, true)
		// The root has the tree and the metadata
		ents, errno := m.readdir(1, 4096, false)
		var top []string
		for _, e := range ents {
			if e.Name != "." && e.Name != ".." {
				top = append(top, e.Name)
			}
		}
		sort.Strings(top)
		if errno != 0 || fmt.Sprint(top) != "[metadata rescue]" {
			k.bad("listing of the root: %q (error %d)", top, errno)
			return
		}
		rt, ok := k.root()
		if !ok {
			return
		}
		k.treeWalk(r, rt)
		if k.stop.Load() {
			return
		}
		k.history(r, rt, c.pick(300, 1500))
		// The same after the kernel dropped what it remembered
		for n := 0; n < 3 && !k.stop.Load(); n++ {
			c.count("nodes_dropped_from_the_cache", m.forgetAll(r))
			k.ids.Range(func(key, _ any) bool { k.ids.Delete(key); return true })
			if rt, ok = k.root(); ok {
				k.history(r, rt, c.pick(60, 300))
			}
		}
		if i < 3 {
			c.sample(map[string]any{"image": s.fs.describe(), "requests": atomic.LoadInt64(&m.sent)})
		}
	})
}

// treeWalk visits every directory once, comparing everything.
func (k *kclient) treeWalk(r *rand.Rand, rt knode) (files []knode) {
	seen := map[[2]uint64]bool{}
	queue := []knode{rt}
	for len(queue) > 0 && !k.stop.Load() {
		d := queue[0]
		queue = queue[1:]
		if seen[[2]uint64{d.owner, d.ino}] {
			continue
		}
		seen[[2]uint64{d.owner, d.ino}] = true
		k.stat(r, d)
		order := r.Perm(3)
		for _, x := range order {
			if k.stop.Load() {
				return
			}
			switch x {
			case 0:
				k.list(d, []uint32{400, 512, 4096, 65536}[r.Intn(4)], false)
			case 1:
				k.list(d, []uint32{512, 4096, 65536}[r.Intn(3)], true)
			case 2:
				k.absent(r, d)
			}
		}
		es := k.v.entries(d.owner, d.ino)
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		for _, e := range es {
			if k.stop.Load() {
				return
			}
			if !fuseName(e.Name) {
				if e.Name != "" && !strings.ContainsRune(e.Name, 0) && e.Name != "." && e.Name != ".." {
					if id, _, errno := k.m.lookup(d.id, e.Name); errno == 0 && id != 0 {
						k.bad("lookup of the invalid name %q in %q succeeded", e.Name, d.path)
						return
					}
				}
				continue
			}
			n, ok := k.look(d, e)
			if !ok {
				continue
			}
			if e.Type == ftDir {
				queue = append(queue, n)
				continue
			}
			k.stat(r, n)
			files = append(files, n)
		}
	}
	return
}

// history makes random requests, keeping a set of known nodes like the kernel
// does.
func (k *kclient) history(r *rand.Rand, rt knode, n int) {
	known := []knode{rt}
	var opened []struct {
		n  knode
		fh uint64
	}
	for step := 0; step < n && !k.stop.Load(); step++ {
		x := known[r.Intn(len(known))]
		if r.Intn(3) == 0 {
			x = known[len(known)-1]
		}
		isDir := x.e.Type == ftDir
		switch op := r.Intn(12); {
		case op < 5 && isDir:
			es := k.v.entries(x.owner, x.ino)
			if len(es) == 0 {
				continue
			}
			e := es[r.Intn(len(es))]
			if !fuseName(e.Name) {
				continue
			}
			if y, ok := k.look(x, e); ok {
				known = append(known, y)
			}
		case op == 5 && isDir:
			k.list(x, []uint32{512, 1000, 4096}[r.Intn(3)], r.Intn(3) == 0)
		case op == 6 && isDir:
			k.absent(r, x)
		case op == 7 && k.forgets && len(known) > 1:
			// Forget a lookup; the kernel does not use a node any more when
			// all lookups of it are forgotten, and children before parents
			j := len(known) - 1
			y := known[j]
			known = known[:j]
			again := false
			for _, z := range known {
				again = again || z.id == y.id
			}
			for _, z := range opened {
				again = again || z.n.id == y.id
			}
			if again {
				known = append(known, y)
				continue
			}
			k.m.forget(y.id, 1)
			k.c.count("forgets", 1)
		case op == 8 && !isDir && x.e.Type == ftReg:
			fh, errno := k.m.open(x.id, uint32(r.Intn(2))*0100000, false)
			k.eval("open", x.path)
			if errno != 0 {
				k.bad("opening %q: error %d", x.path, errno)
				return
			}
			opened = append(opened, struct {
				n  knode
				fh uint64
			}{x, fh})
		case op == 9 && len(opened) > 0:
			j := r.Intn(len(opened))
			f := opened[j]
			a, errno := k.m.getattr(f.n.id, &f.fh)
			k.eval("getattr_open", f.n.path)
			if errno != 0 {
				k.bad("stat of the opened %q: error %d", f.n.path, errno)
				return
			}
			if s := cmpAttr(a, k.v.inode(f.n.owner, f.n.ino)); s != "" {
				k.bad("stat of the opened %q: %s", f.n.path, s)
				return
			}
			if r.Intn(2) == 0 {
				k.m.release(f.n.id, f.fh, false)
				opened = append(opened[:j], opened[j+1:]...)
			}
		default:
			k.stat(r, x)
		}
	}
	for _, f := range opened {
		k.m.release(f.n.id, f.fh, false)
	}
}

// --- C16

func (k *kclient) segsOf(owner, ino uint64) *fileSegs {
	k.segsMu.Lock()
	defer k.segsMu.Unlock()
	key := [2]uint64{owner, ino}
	if f := k.segCache[key]; f != nil {
		return f
	}
	f := &fileSegs{}
	f.size, f.ss = k.v.segs(owner, ino)
	if k.segCache == nil {
		k.segCache = map[[2]uint64]*fileSegs{}
	}
	k.segCache[key] = f
	return f
}

// want returns what a read must give.
func (k *kclient) want(f *fileSegs, off, n uint64) (b []byte, bad string) {
	if off >= f.size {
		return nil, ""
	}
	n = min(n, f.size-off)
	b = make([]byte, n)
	for _, s := range f.ss {
		lo, hi := max(s.at, off), min(s.at+s.n, off+n)
		if lo >= hi {
			continue
		}
		if s.bad != "" {
			bad = s.bad
			continue
		}
		if s.inline != nil {
			copy(b[lo-off:hi-off], s.inline[lo-s.at:])
			continue
		}
		if k.nodev {
			bad = "no image"
			continue
		}
		if s.phys+hi-s.at > k.imgSize {
			bad = "behind the end of the image"
			continue
		}
		for x := lo; x < hi; x++ {
			b[x-off] = k.v.fs.pat(s.phys + x - s.at)
		}
	}
	return
}

// readCmp makes one read and compares it. It reports false on a violation.
func (k *kclient) readCmp(n knode, f *fileSegs, fh, off uint64, cnt uint32) bool {
	w, bad := k.want(f, off, uint64(cnt))
	d, errno := k.m.read(n.id, fh, off, cnt)
	nt := ""
	if len(w) > 0 {
		nt = fmt.Sprint(n.path, off, cnt)
	}
	k.eval("read", nt)
	if bad != "" {
		k.c.count("reads_that_must_fail", 1)
		if errno <= 0 {
			k.bad("read of %d bytes at %d of %q (tree %d inode %d), which cannot be had (%s), gave %d bytes, error %d", cnt, off, n.path, n.owner, n.ino, bad, len(d), errno)
			return false
		}
		k.c.seen("failed_read", n.path, off, cnt)
		return true
	}
	if errno != 0 {
		k.bad("read of %d bytes at %d of %q (tree %d inode %d, size %d): error %d\n%s", cnt, off, n.path, n.owner, n.ino, f.size, errno, k.m.errb.String())
		return false
	}
	if !bytes.Equal(d, w) {
		x := 0
		for x < len(d) && x < len(w) && d[x] == w[x] {
			x++
		}
		k.bad("read of %d bytes at %d of %q (tree %d inode %d, size %d) gave %d bytes instead of %d, first difference at %d", cnt, off, n.path, n.owner, n.ino, f.size, len(d), len(w), off+uint64(x))
		return false
	}
	k.c.count("bytes_compared", len(d))
	return true
}

// offsets returns interesting offsets of a file.
func (f *fileSegs) offsets(v *View, owner, ino uint64) []uint64 {
	o := []uint64{0, f.size, f.size + 1, f.size + 4096, 1 << 40, 1<<63 - 200000}
	for _, e := range v.extents(owner, ino) {
		o = append(o, e.At, e.At+e.length())
		if e.Type == exInline {
			o = append(o, e.At+uint64(len(e.Inline)))
		}
	}
	// The same positions in other multiples of 4 GiB
	for _, x := range o[1:] {
		if x >= 1<<32 && x < 1<<62 {
			o = append(o, x-1<<32, x&(1<<32-1))
		} else if f.size > 1<<32 && x < 1<<62 {
			o = append(o, x+1<<32)
		}
	}
	return o
}

func (k *kclient) readFile(r *rand.Rand, n knode, reads int) {
	f := k.segsOf(n.owner, n.ino)
	fh, errno := k.m.open(n.id, 0100000, false)
	if errno != 0 {
		k.bad("opening %q: error %d", n.path, errno)
		return
	}
	defer k.m.release(n.id, fh, false)
	iv := k.v.inode(n.owner, n.ino)
	if a, errno := k.m.getattr(n.id, &fh); errno != 0 || iv != nil && a.Size != iv.Size {
		k.bad("stat of the opened %q: error %d, size %d instead of %d", n.path, errno, a.Size, f.size)
		return
	}
	if f.size < 3<<20 { // all of it
		step := []uint32{4096, 8192, 65536, 131072, 3000, 131072}[r.Intn(6)]
		if f.size < 2000 && r.Intn(2) == 0 {
			step = uint32(1 + r.Intn(100))
		}
		for off := uint64(0); off < f.size; off += uint64(step) {
			if !k.readCmp(n, f, fh, off, step) {
				return
			}
		}
	}
	offs := f.offsets(k.v, n.owner, n.ino)
	for i := 0; i < reads; i++ {
		off := offs[r.Intn(len(offs))]
		switch r.Intn(4) {
		case 0:
			if d := uint64(r.Intn(9000)); off >= d {
				off -= d
			}
		case 1:
			if d := uint64(r.Intn(3)); off >= d {
				off -= d
			}
		case 2:
			if f.size > 0 {
				off = uint64(r.Int63n(int64(f.size)))
			}
		}
		cnt := []uint32{1, 2, 511, 512, 4095, 4096, 4097, 12288, 65536, 131072, uint32(1 + r.Intn(131072))}[r.Intn(11)]
		if !k.readCmp(n, f, fh, off, cnt) {
			return
		}
	}
}

func checkC16(c *Check) {
	c.par(c.pick(40, 700), func(i int) {
		r := c.rng(i)
		o := genOpts{entries: 10 + r.Intn(50), subvols: r.Intn(3), gens: r.Intn(4), collide: r.Intn(3) == 0, deep: 2, maxFile: 2 + r.Intn(40),
			huge: i%3 == 0, encoded: i%2 == 1, far: i%8 == 3}
		if i%8 == 5 {
			o.maxFile, o.entries = 600, 14
		}
		o.scale = i == 14 || i == 35
		s := c.makeSetup(fmt.Sprint("c", i), r, o, i%3 == 0, true, nil)
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		what := fmt.Sprintf("case %d (%s)", i, s.fs.describe())
		k := &kclient{c: c, v: s.v, imgSize: s.fs.Size}
		a := []string{"--metadata", s.meta, s.img}
		switch i % 5 {
		case 1:
			k.nodev = true
			what += " without image"
			a = a[:2]
		case 2: // cut off somewhere among the data
			if len(s.fs.writes) > 0 {
				w := s.fs.writes[r.Intn(len(s.fs.writes))]
				k.imgSize = w.off + uint64(r.Int63n(int64(w.n)+1))
				if e := fileEnds(s.v, r); e > 0 && r.Intn(2) == 0 {
					k.imgSize = e
				}
				must(os.Truncate(s.img, int64(k.imgSize)))
				what += fmt.Sprintf(" image cut off at %d", k.imgSize)
			}
		case 3: // a chunk missing
			recs := map[recKey]Rec{}
			drop := map[uint64]bool{}
			for l := range s.fs.chunks {
				drop[l] = false
			}
			var ls []uint64
			for l := range drop {
				ls = append(ls, l)
			}
			sort.Slice(ls, func(a, b int) bool { return ls[a] < ls[b] })
			for _, l := range ls {
				drop[l] = r.Intn(3) == 0
			}
			for kk, rc := range s.recs {
				if rc.Owner == oChunk && rc.Key.Type == tChunkItem && drop[rc.Key.Off] {
					continue
				}
				recs[kk] = rc
			}
			s.index(c, recs)
			k.v = s.fs.view(recs)
			what += " chunks missing"
		}
		k.what = what
		m := c.mustMount(what, s.dir, mountOpts{}, a...)
		if m == nil {
			return
		}
		defer m.finish(what, i%4 == 0)
		k.m = m
		rt, ok := k.root()
		if !ok {
			return
		}
		files := k.collect(rt)
		for _, n := range files {
			if k.stop.Load() {
				return
			}
			k.readFile(r, n, c.pick(12, 40))
		}
		// Interleaved reads of many handles
		type oh struct {
			n  knode
			f  *fileSegs
			fh uint64
		}
		var hs []oh
		for j := 0; j < 6 && len(files) > 0; j++ {
			n := files[r.Intn(len(files))]
			if fh, errno := m.open(n.id, 0, false); errno == 0 {
				hs = append(hs, oh{n, k.segsOf(n.owner, n.ino), fh})
			}
		}
		for j := 0; j < 60 && len(hs) > 0 && !k.stop.Load(); j++ {
			h := hs[r.Intn(len(hs))]
			offs := h.f.offsets(k.v, h.n.owner, h.n.ino)
			off := offs[r.Intn(len(offs))]
			k.readCmp(h.n, h.f, h.fh, off, uint32(1+r.Intn(20000)))
		}
		for _, h := range hs {
			m.release(h.n.id, h.fh, false)
		}
		// The metadata file
		md, err := os.ReadFile(s.meta)
		must(err)
		id, at, errno := m.lookup(1, "metadata")
		if errno != 0 || at.Size != uint64(len(md)) {
			k.bad("lookup of the metadata file: error %d, size %d instead of %d", errno, at.Size, len(md))
			return
		}
		fh, errno := m.open(id, 0, false)
		if errno != 0 {
			k.bad("opening the metadata file: error %d", errno)
			return
		}
		for j := 0; j < 10; j++ {
			off := r.Intn(len(md) + 100)
			n := 1 + r.Intn(100000)
			w := []byte{}
			if off < len(md) {
				w = md[off:min(off+n, len(md))]
			}
			d, errno := m.read(id, fh, uint64(off), uint32(n))
			k.eval("read_metadata", "")
			if errno != 0 || !bytes.Equal(d, w) {
				k.bad("read of %d bytes at %d of the metadata file: %d bytes, error %d", n, off, len(d), errno)
				return
			}
		}
		m.release(id, fh, false)
		if i < 3 {
			c.sample(map[string]any{"image": s.fs.describe(), "files": len(files), "requests": atomic.LoadInt64(&m.sent)})
		}
	})
}

// collect looks up every regular file of the tree.
func (k *kclient) collect(rt knode) (files []knode) {
	seen := map[[2]uint64]bool{}
	queue := []knode{rt}
	for len(queue) > 0 && !k.stop.Load() {
		d := queue[0]
		queue = queue[1:]
		if seen[[2]uint64{d.owner, d.ino}] {
			continue
		}
		seen[[2]uint64{d.owner, d.ino}] = true
		for _, e := range k.v.entries(d.owner, d.ino) {
			if !fuseName(e.Name) || k.stop.Load() {
				continue
			}
			n, ok := k.look(d, e)
			if !ok {
				continue
			}
			if e.Type == ftDir {
				queue = append(queue, n)
			} else if e.Type == ftReg {
				files = append(files, n)
			}
		}
	}
	return
}

// --- C17

// ownRaces returns the race reports in which one of the accesses was made by
// the code under test rather than by the FUSE library only.
func ownRaces(prefix string) []string {
	files, _ := filepath.Glob(prefix + ".*")
	var out []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			access := blk
			if j := strings.Index(blk, "\nGoroutine "); j >= 0 {
				access = blk[:j]
			}
			if strings.Contains(access, "btrfscue/internal/rescuefs") || strings.Contains(access, "btrfscue/pkg/") {
				out = append(out, blk)
			}
		}
	}
	return out
}

func checkC17(c *Check) {
	c.par(c.pick(24, 400), func(i int) {
		r := c.rng(i)
		o := c.fuseOpts(r)
		o.entries, o.gens, o.maxFile = 8+r.Intn(25), r.Intn(2), 6
		if i%3 == 1 {
			o.wide = 20 + r.Intn(100)
		}
		s := c.makeSetup(fmt.Sprint("c", i), r, o, false, true, nil)
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		what := fmt.Sprintf("case %d (%s)", i, s.fs.describe())
		log := filepath.Join(s.dir, "racelog")
		bin := c.BinRace
		rounds := c.pick(3, 6)
		for round := 0; round < rounds; round++ {
			m := c.mustMount(what, s.dir, mountOpts{bin: bin, env: []string{"GORACE=halt_on_error=0 log_path=" + log}}, "--metadata", s.meta, s.img)
			if m == nil {
				return
			}
			k := &kclient{c: c, m: m, v: s.v, what: what, imgSize: s.fs.Size, forgets: (i+round)%3 == 1}
			clients := 4 + r.Intn(12)
			seed := r.Int63()
			same := round%2 == 0
			bar := &barrier{n: clients}
			bar.c = sync.NewCond(&bar.mu)
			var wg sync.WaitGroup
			for cl := 0; cl < clients; cl++ {
				wg.Add(1)
				go func(cl int) {
					defer wg.Done()
					defer bar.leave()
					rr := rand.New(rand.NewSource(seed + int64(cl)))
					plan := rr
					if same { // all clients do the same at the same time
						plan = rand.New(rand.NewSource(seed))
					}
					k.concurrent(plan, rr, bar, c.pick(60, 200))
				}(cl)
			}
			wg.Wait()
			stop := k.stop.Load()
			m.finish(what, false)
			c.count("concurrent_clients", clients)
			if rs := ownRaces(log); len(rs) > 0 {
				c.violated("%s: data race in the serving process:\n%s", what, rs[0])
				return
			}
			if stop {
				return
			}
		}
		if i < 3 {
			c.sample(map[string]any{"image": s.fs.describe(), "rounds": rounds})
		}
	})
}

// barrier lets clients start their next request at the same time.
type barrier struct {
	mu   sync.Mutex
	c    *sync.Cond
	n    int
	at   int
	turn int
}

func (b *barrier) wait() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.at++
	if b.at >= b.n {
		b.at = 0
		b.turn++
		b.c.Broadcast()
		return
	}
	for t := b.turn; b.turn == t && b.n > 1; {
		b.c.Wait()
	}
}

func (b *barrier) leave() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n--
	if b.at >= b.n && b.at > 0 {
		b.at = 0
		b.turn++
		b.c.Broadcast()
	}
}

// concurrent is one client.
func (k *kclient) concurrent(plan, own *rand.Rand, bar *barrier, n int) {
	bar.wait()
	rt, ok := k.root()
	if !ok {
		return
	}
	cur := rt
	var held []uint64 // Lookups to forget
	home := func() {
		cur = rt
		if k.forgets && own.Intn(2) == 0 {
			for len(held) > 0 {
				k.m.forget(held[len(held)-1], 1)
				held = held[:len(held)-1]
				k.c.count("forgets", 1)
			}
		}
	}
	for step := 0; step < n && !k.stop.Load(); step++ {
		if step < 25 {
			bar.wait()
		}
		op := plan.Intn(10)
		pickN := plan.Int()
		es := k.v.entries(cur.owner, cur.ino)
		if cur.e.Type != ftDir || len(es) == 0 {
			k.stat(own, cur)
			if cur.e.Type == ftReg {
				k.readFile(own, cur, 2)
			}
			home()
			continue
		}
		switch {
		case op == 0:
			k.list(cur, 4096, pickN%2 == 0)
		case op == 1:
			k.stat(own, cur)
		case op == 2:
			k.absent(own, cur)
		case op == 3:
			home()
		default:
			e := es[pickN%len(es)]
			if !fuseName(e.Name) {
				continue
			}
			if y, ok := k.look(cur, e); ok {
				held = append(held, y.id)
				cur = y
			}
		}
	}
}

// --- C18

// mutation is one request that would change something.
type mutation struct {
	name string
	op   uint32
	node uint64
	body []byte
}

func u32s(v ...uint32) []byte {
	b := make([]byte, 4*len(v))
	for i, x := range v {
		le32(b[4*i:], x)
	}
	return b
}

func u64s(v ...uint64) []byte {
	b := make([]byte, 8*len(v))
	for i, x := range v {
		le64(b[8*i:], x)
	}
	return b
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// setattr builds a SETATTR body.
func setattr(valid uint32, fh, size uint64, mode, uid, gid uint32, t uint64) []byte {
	return cat(u32s(valid, 0), u64s(fh, size, 0, t, t, t), u32s(5, 6, 7, mode, 0, uid, gid, 0))
}

// mutations returns a random mutating request on the nodes known.
func randMutation(r *rand.Rand, dir, dir2, node knode, fh uint64, name, newName string) mutation {
	fh0 := fh
	nm := cstr(name)
	if r.Intn(3) == 0 {
		nm = cstr(newName)
	}
	switch r.Intn(19) {
	case 0: // chmod, chown, truncate, times, alone or together
		valid := uint32(1+r.Intn(63)) & 0x3f
		if r.Intn(2) == 0 {
			valid = 1 << r.Intn(6)
		}
		if valid&0x10 != 0 && r.Intn(3) == 0 {
			valid |= 0x80
		}
		if valid&0x20 != 0 && r.Intn(3) == 0 {
			valid |= 0x100
		}
		f := uint64(0)
		if fh != ^uint64(0) && r.Intn(2) == 0 {
			valid |= 0x40
			f = fh
		}
		mode := uint32(r.Intn(010000))
		return mutation{fmt.Sprintf("SETATTR valid=%#x", valid), fSetattr, node.id, setattr(valid, f, []uint64{0, 1, 4096, 1 << 30}[r.Intn(4)], mode, uint32(r.Intn(3)), uint32(r.Intn(3)), uint64(r.Uint32()))}
	case 1:
		return mutation{"MKNOD", fMknod, dir.id, cat(u32s([]uint32{sIFREG, sIFIFO, sIFCHR, sIFSOCK}[r.Intn(4)]|0644, 0, 022, 0), cstr(newName))}
	case 2:
		return mutation{"MKDIR", fMkdir, dir.id, cat(u32s(0755, 022), cstr(newName))}
	case 3:
		return mutation{"SYMLINK", fSymlink, dir.id, cat(cstr(newName), cstr("target"))}
	case 4:
		return mutation{"LINK", fLink, dir.id, cat(u64s(node.id), cstr(newName))}
	case 5:
		return mutation{"RENAME", fRename, dir.id, cat(u64s(dir2.id), cstr(name), cstr(newName))}
	case 6:
		return mutation{"RENAME2", fRename2, dir.id, cat(u64s(dir2.id), u32s(uint32(r.Intn(3)), 0), cstr(name), cstr(newName))}
	case 7, 8:
		return mutation{"UNLINK", fUnlink, dir.id, nm}
	case 9, 10:
		return mutation{"RMDIR", fRmdir, dir.id, nm}
	case 11:
		return mutation{"CREATE", fCreate, dir.id, cat(u32s(uint32(r.Intn(3))|0100, 0644|sIFREG, 022, 0), nm)}
	case 12:
		fl := []uint32{1, 2, 1 | 01000, 2 | 01000, 1 | 02000, 01000}[r.Intn(6)]
		return mutation{fmt.Sprintf("OPEN flags=%#o", fl), fOpen, node.id, u32s(fl, 0)}
	case 13, 14:
		if fh == ^uint64(0) {
			fh = 0
		}
		data := make([]byte, []int{1, 10, 4096}[r.Intn(3)])
		r.Read(data)
		if fh0 == ^uint64(0) {
			return mutation{"MKDIR", fMkdir, dir.id, cat(u32s(0755, 022), cstr(newName))}
		}
		return mutation{"WRITE", fWrite, node.id, cat(u64s(fh, uint64(r.Intn(5000))), u32s(uint32(len(data)), uint32(r.Intn(2))), u64s(0), u32s(1, 0), data)}
	case 15:
		v := []byte("value")
		return mutation{"SETXATTR", fSetxattr, node.id, cat(u32s(uint32(len(v)), uint32(r.Intn(3))), cstr("user."+newName), v)}
	case 16:
		return mutation{"REMOVEXATTR", fRemovexattr, node.id, cstr("user." + name)}
	case 17:
		if fh0 == ^uint64(0) {
			return mutation{"RMDIR", fRmdir, dir.id, nm}
		}
		return mutation{"FALLOCATE", fFallocate, node.id, cat(u64s(fh, 0, 1<<20), u32s(uint32(r.Intn(4)), 0))}
	default:
		if fh0 == ^uint64(0) {
			return mutation{"UNLINK", fUnlink, dir.id, nm}
		}
		return mutation{"COPY_FILE_RANGE", fCopyRange, node.id, u64s(fh, 0, node.id, fh, 4096, 100, 0)}
	}
}

func checkC18(c *Check) {
	c.par(c.pick(24, 300), func(i int) {
		r := c.rng(i)
		o := c.fuseOpts(r)
		o.entries = 15 + r.Intn(30)
		o.missing = false
		s := c.makeSetup(fmt.Sprint("c", i), r, o, false, true, nil)
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		what := fmt.Sprintf("case %d (%s)", i, s.fs.describe())
		// The program may write to the files if it wants to
		before := fmt.Sprint(stateOf(s.img), stateOf(s.meta))
		mdBytes, err := os.ReadFile(s.meta)
		must(err)
		sum := treeSum(s.dir)
		m := c.mustMount(what, s.dir, mountOpts{}, "--metadata", s.meta, s.img)
		if m == nil {
			return
		}
		k := &kclient{c: c, m: m, v: s.v, what: what, imgSize: s.fs.Size, quiet: true}
		rt, ok := k.root()
		if !ok {
			return
		}
		top := knode{id: 1, path: "(top)", e: EntryV{Type: ftDir}}
		dirs := []knode{top, rt}
		var nodes []knode
		queue := []knode{rt}
		seen := map[[2]uint64]bool{}
		for len(queue) > 0 {
			d := queue[0]
			queue = queue[1:]
			if seen[[2]uint64{d.owner, d.ino}] {
				continue
			}
			seen[[2]uint64{d.owner, d.ino}] = true
			for _, e := range s.v.entries(d.owner, d.ino) {
				if !fuseName(e.Name) {
					continue
				}
				if n, ok := k.look(d, e); ok {
					nodes = append(nodes, n)
					if e.Type == ftDir {
						dirs = append(dirs, n)
						queue = append(queue, n)
					}
				}
			}
		}
		mid, _, errno := m.lookup(1, "metadata")
		if errno != 0 {
			k.bad("lookup of the metadata file: error %d", errno)
			return
		}
		nodes = append(nodes, knode{id: mid, path: "(metadata)", e: EntryV{Type: ftReg}}, rt, top)
		fhs := map[uint64]uint64{} // node → handle
		for step := 0; step < c.pick(260, 1200) && !k.stop.Load(); step++ {
			n := nodes[r.Intn(len(nodes))]
			if r.Intn(4) == 0 {
				n = nodes[len(nodes)-1-r.Intn(3)]
			}
			fh := ^uint64(0)
			if n.e.Type == ftReg {
				h, ok := fhs[n.id]
				if !ok {
					h, errno = m.open(n.id, 0, false)
					if errno != 0 {
						k.bad("opening %q: error %d", n.path, errno)
						break
					}
					fhs[n.id] = h
				}
				fh = h
			}
			d, d2 := dirs[r.Intn(len(dirs))], dirs[r.Intn(len(dirs))]
			name := "nothing"
			if d.id == 1 {
				name = []string{"rescue", "metadata"}[r.Intn(2)]
			} else if es := s.v.entries(d.owner, d.ino); len(es) > 0 {
				if e := es[r.Intn(len(es))]; fuseName(e.Name) {
					name = e.Name
				}
			}
			mu := randMutation(r, d, d2, n, fh, name, "new-"+randName(r, 5))
			rep := m.call(mu.op, mu.node, mu.body)
			c.count("evaluations", 1)
			c.seen("case", mu.name, n.e.Type, d.e.Type, n.path == "(metadata)", d.id == 1, fh != ^uint64(0))
			c.seen("request_kind", mu.op)
			if rep.errno <= 0 {
				k.bad("%s on node %q (directory %q, name %q) was not refused: error %d", mu.name, n.path, d.path, name, rep.errno)
				break
			}
			c.seen("refusal", mu.op, rep.errno)
			if r.Intn(10) == 0 { // reads in between
				k.stat(r, rt)
				if n.e.Type == ftReg && n.owner != 0 {
					f := k.segsOf(n.owner, n.ino)
					k.readCmp(n, f, fh, 0, 4096)
				}
			}
		}
		if !k.stop.Load() {
			// All is as before
			k.treeWalk(r, rt)
			fh := fhs[mid]
			if fh == 0 {
				fh, _ = m.open(mid, 0, false)
			}
			d, errno := m.read(mid, fh, 0, 65536)
			if errno != 0 || !bytes.Equal(d, mdBytes[:min(len(mdBytes), 65536)]) {
				k.bad("the metadata file reads differently after the requests (error %d)", errno)
			}
			c.count("trees_compared_after", 1)
		}
		m.finish(what, true)
		os.Remove(filepath.Join(s.dir, "k.sock"))
		os.Remove(m.mp)
		if x := fmt.Sprint(stateOf(s.img), stateOf(s.meta)); x != before {
			c.violated("%s: image or metadata changed:\nbefore %s\nafter  %s", what, before, x)
		}
		if x := treeSum(s.dir); x != sum {
			c.violated("%s: the folder changed:\nbefore %s\nafter  %s", what, sum, x)
		}
		if i < 2 {
			c.sample(map[string]any{"image": s.fs.describe(), "nodes": len(nodes), "directories": len(dirs)})
		}
	})
}
