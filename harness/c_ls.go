package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C10"] = checkDef{fn: checkC10, level: "exploration", min: 3000,
		rule: "ls of every kind of directory of generated trees, plain, recursive and with inode numbers; output parsed and compared with the model listing; an evaluation is one listed entry, non-trivial if it has an inode; cycles and directories with several names included"}
}

// setup makes a generated image and its metadata file.
type setup struct {
	fs   *FS
	img  string
	meta string
	recs map[recKey]Rec
	v    *View
	dir  string
}

// makeSetup writes image and metadata below a new scratch folder. The
// metadata comes from a scan by the program, or directly from the model.
func (c *Check) makeSetup(name string, r *rand.Rand, o genOpts, scan bool, needImg bool, tweak func(fs *FS)) *setup {
	bs := blockSizes[r.Intn(len(blockSizes))]
	s := &setup{dir: c.dir(name)}
	size := sizeFor(r, bs, 2)
	if o.far { // a large device: addresses around and beyond 2 and 4 GiB
		bs = blockSizes[2+r.Intn(3)]
		size = farSize(r)
		c.count("large_devices", 1)
	}
	s.fs = newFS(r, bs, size)
	generate(s.fs, o)
	if tweak != nil {
		tweak(s.fs)
		s.fs.flush(false)
	}
	s.recs = s.fs.records(nil)
	s.v = s.fs.view(s.recs)
	s.img = filepath.Join(s.dir, "img")
	s.meta = filepath.Join(s.dir, "meta")
	if scan || needImg {
		s.fs.writeImage(s.img, imgOpts{noise: s.fs.noise(8)})
	}
	if scan {
		if !c.recon(bs, s.fs.FSID, s.meta, s.img) {
			return nil
		}
	} else {
		s.index(c, s.recs)
	}
	return s
}

// index (re)writes the metadata file from records.
func (s *setup) index(c *Check, recs map[recKey]Rec) {
	os.Remove(s.meta)
	buildIndex(s.meta, recsOf(recs))
}

type lsLine struct {
	Ino                           string
	Type                          string
	Perm                          string
	Nlink, UID, GID, Size, Change string
	Name                          string
}

func (l lsLine) String() string {
	return fmt.Sprintf("%s %s%s %s %s %s %s %s %q", l.Ino, l.Type, l.Perm, l.Nlink, l.UID, l.GID, l.Size, l.Change, l.Name)
}

type lsSection struct {
	Head  string
	Lines []lsLine
}

var lsRe = regexp.MustCompile(`(?s)^(?:(\d+) +)?([-bcdlps?])([rwx-]{9}|\?{9}) +(\d+|\?) +(\d+|\?) +(\d+|\?) +(\d+|\?) +((?:Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) [ \d]\d \d\d:\d\d|\?) +(.*)$`)

func parseLs(out string) (secs []lsSection, err error) {
	cur := lsSection{}
	started := false
	for n, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if out == "" {
			break
		}
		if m := lsRe.FindStringSubmatch(l); m != nil {
			cur.Lines = append(cur.Lines, lsLine{m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8], m[9]})
			started = true
			continue
		}
		if !strings.HasSuffix(l, ":") {
			return nil, fmt.Errorf("line %d is neither an entry nor a heading: %q", n+1, l)
		}
		secs = append(secs, cur)
		cur = lsSection{Head: l[:len(l)-1]}
	}
	_ = started
	return append(secs, cur), nil
}

func permString(mode uint32) string {
	out := ""
	for i := 8; i >= 0; i-- {
		if mode>>uint(i)&1 != 0 {
			out += string("xwr"[i%3])
		} else {
			out += "-"
		}
	}
	return out
}

func typeChar(t uint8) string {
	switch t {
	case ftReg:
		return "-"
	case ftDir:
		return "d"
	case ftChr:
		return "c"
	case ftBlk:
		return "b"
	case ftFifo:
		return "p"
	case ftSock:
		return "s"
	case ftSymlink:
		return "l"
	}
	return "?"
}

func wantLine(v *View, owner uint64, e EntryV, inode bool) lsLine {
	o, ino := e.target(owner)
	// What pads the columns cannot be told from what a name starts with
	l := lsLine{Type: typeChar(e.Type), Name: strings.TrimLeft(lsName(e.Name), " ")}
	if inode {
		l.Ino = fmt.Sprint(ino)
	}
	iv := v.inode(o, ino)
	if iv == nil {
		l.Perm = "?????????"
		l.Nlink, l.UID, l.GID, l.Size, l.Change = "?", "?", "?", "?", "?"
		return l
	}
	l.Perm = permString(iv.Mode)
	l.Nlink, l.UID, l.GID, l.Size = fmt.Sprint(iv.Nlink), fmt.Sprint(iv.UID), fmt.Sprint(iv.GID), fmt.Sprint(iv.Size)
	l.Change = time.Unix(iv.Ctime.Sec, int64(iv.Ctime.Nsec)).UTC().Format("Jan _2 15:04")
	return l
}

// sortedEntries is the order of a listing.
func sortedEntries(v *View, owner, ino uint64) []EntryV {
	es := v.entries(owner, ino)
	sort.SliceStable(es, func(i, j int) bool {
		di, dj := es[i].Type == ftDir, es[j].Type == ftDir
		if di != dj {
			return dj
		}
		return es[i].Name < es[j].Name
	})
	return es
}

// wantSections returns one section per directory below, each once.
func wantSections(v *View, owner, ino uint64, rec, inode bool) (secs []lsSection, multi bool) {
	seen := map[[2]uint64]bool{}
	var visit func(owner, ino uint64, head string)
	visit = func(owner, ino uint64, head string) {
		k := [2]uint64{owner, ino}
		if seen[k] {
			multi = true
			return
		}
		seen[k] = true
		s := lsSection{Head: head}
		es := sortedEntries(v, owner, ino)
		for _, e := range es {
			s.Lines = append(s.Lines, wantLine(v, owner, e, inode))
		}
		secs = append(secs, s)
		if !rec {
			return
		}
		for _, e := range es {
			if e.Type == ftDir {
				o, i := e.target(owner)
				visit(o, i, lsName(e.Name))
			}
		}
	}
	visit(owner, ino, "")
	return
}

// lsName is how ls shows a name: as it is, quoted if it has characters that
// would end a line or a column.
func lsName(name string) string {
	if strings.ContainsAny(name, "\t\n\v\f") || strings.Contains(name, "\xff") {
		return strconv.Quote(name)
	}
	return name
}

func (c *Check) compareSections(what string, got, want []lsSection, heads bool) bool {
	key := func(s lsSection) string {
		b := strings.Builder{}
		if heads {
			fmt.Fprintf(&b, "%q:\n", s.Head)
		}
		for _, l := range s.Lines {
			b.WriteString(l.String())
			b.WriteByte('\n')
		}
		return b.String()
	}
	g, w := map[string]int{}, map[string]int{}
	for _, s := range got {
		g[key(s)]++
	}
	for _, s := range want {
		w[key(s)]++
	}
	for k, n := range w {
		if g[k] != n {
			// The most similar section got
			near := ""
			for x := range g {
				if w[x] != g[x] {
					near = x
					break
				}
			}
			c.violated("%s: a directory is listed %d times instead of %d:\n%s--- output has, unexpectedly:\n%s", what, g[k], n, diffLines(k, near), "")
			return false
		}
	}
	for k, n := range g {
		if w[k] != n {
			c.violated("%s: unexpected section, %d times instead of %d:\n%s", what, n, w[k], k)
			return false
		}
	}
	return true
}

// diffLines shows lines that are in one text only.
func diffLines(want, got string) string {
	wl, gl := map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(want, "\n") {
		wl[l] = true
	}
	for _, l := range strings.Split(got, "\n") {
		gl[l] = true
	}
	var b strings.Builder
	n := 0
	for _, l := range strings.Split(want, "\n") {
		if !gl[l] && n < 12 {
			b.WriteString("  expected: " + l + "\n")
			n++
		}
	}
	for _, l := range strings.Split(got, "\n") {
		if !wl[l] && n < 24 {
			b.WriteString("  printed:  " + l + "\n")
			n++
		}
	}
	if b.Len() == 0 {
		return "  (same lines in another order)\n  expected:\n" + want + "\n  printed:\n" + got
	}
	return b.String()
}

// addCycles adds directory entries that make cycles and second names.
func addCycles(fs *FS, r *rand.Rand) {
	v := fs.view(fs.records(nil))
	var dirs []dirRef
	dirs = append(dirs, dirRef{oFS, 256})
	v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
		if n.E.Type == ftDir {
			dirs = append(dirs, dirRef{n.Owner, n.Ino})
		}
	})
	g := &genState{fs: fs, r: r}
	for k := 0; k < 1+r.Intn(4); k++ {
		a := dirs[r.Intn(len(dirs))]
		b := dirs[r.Intn(len(dirs))]
		e := EntryV{Name: "cyc" + randName(r, 6), Type: ftDir, Loc: Key{b.ino, tInodeItem, 0}}
		if a.owner != b.owner || r.Intn(3) == 0 {
			e.Loc = Key{b.owner, tRootItem, ^uint64(0)}
		}
		g.link(a, e)
	}
}

// extremeInodes gives some files the smallest and largest numbers their
// inodes can hold.
func extremeInodes(fs *FS, r *rand.Rand) (n int) {
	var owners []uint64
	for o := range fs.trees {
		owners = append(owners, o)
	}
	sort.Slice(owners, func(a, b int) bool { return owners[a] < owners[b] })
	for _, o := range owners {
		var ks []Key
		for k := range fs.trees[o] {
			if k.Type == tInodeItem {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].less(ks[b]) })
		for _, k := range ks {
			iv, ok := fs.get(o, k).v.(InodeV)
			if !ok || r.Intn(3) > 0 {
				continue
			}
			n32 := func() uint32 { return []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 65536, r.Uint32()}[r.Intn(7)] }
			iv.Nlink, iv.UID, iv.GID = n32(), n32(), n32()
			iv.Size = []uint64{0, 1, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1, 1 << 63, ^uint64(0), r.Uint64()}[r.Intn(9)]
			iv.Ctime = TS{[]int64{0, -1, -86401, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 36, -(1 << 34), r.Int63n(1 << 33)}[r.Intn(9)], uint32(r.Intn(1e9))}
			fs.set(o, k, encInode(iv), iv)
			n++
		}
	}
	return
}

func checkC10(c *Check) {
	c.par(c.pick(40, 500), func(i int) {
		r := c.rng(i)
		o := genOpts{entries: 10 + r.Intn(120), subvols: r.Intn(5), gens: r.Intn(5), specials: true, xattrs: r.Intn(2) == 0,
			collide: true, badHash: r.Intn(3) == 0, missing: i%4 == 1, wildNames: i%5 == 3, huge: true, lineNames: true, deep: 1 + r.Intn(12)}
		if i%10 == 2 {
			o.wide, o.badHash = 300+r.Intn(2200), false
		}
		if i%10 == 7 {
			o.chain, o.chainName = 20+r.Intn(150), []int{3, 30, 200}[r.Intn(3)]
		}
		o.scale = i == 14 || i == 29
		cyc := i%4 == 2
		s := c.makeSetup(fmt.Sprint("c", i), r, o, i%3 == 0, false, func(fs *FS) {
			if cyc {
				addCycles(fs, r)
			}
			if i%2 == 0 {
				c.count("inodes_with_extreme_values", extremeInodes(fs, r))
			}
		})
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		v := s.v
		// Where it is shown makes no difference
		env := []string{"TZ=" + []string{"UTC", "Asia/Kolkata", "America/New_York", "Pacific/Kiritimati"}[i%4]}
		c.seen("time_zone", env[0])
		var nodes []Node
		v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
			nodes = append(nodes, n)
			if lsName(n.E.Name) != n.E.Name {
				c.count("quoted_names", 1)
			}
		})
		run := func(args ...string) ([]lsSection, Res, bool) {
			res := c.cli(runOpts{cpu: 60, env: env}, append([]string{"ls", "--metadata", s.meta}, args...)...)
			if res.Code != 0 {
				c.violated("case %d: ls failed: %v", i, res)
				return nil, res, false
			}
			secs, err := parseLs(string(res.Out))
			if err != nil {
				c.violated("case %d: ls %q: %v\n%v", i, args, err, res)
				return nil, res, false
			}
			return secs, res, true
		}
		count := func(secs []lsSection) {
			for _, x := range secs {
				c.count("evaluations", len(x.Lines))
				for _, l := range x.Lines {
					c.seen("case", i, l.String())
					c.seen("entry_kind", l.Type)
				}
			}
			c.count("directories_listed", len(secs))
		}
		// The whole tree
		for _, inode := range []bool{false, true} {
			want, multi := wantSections(v, oFS, 256, true, inode)
			a := []string{"--recursive"}
			if inode {
				a = append(a, "--inode")
			}
			if r.Intn(2) == 0 {
				a = append(a, "/")
			}
			got, _, ok := run(a...)
			if !ok {
				return
			}
			c.compareSections(fmt.Sprintf("case %d: ls %v", i, a), got, want, !multi)
			count(want)
			if multi {
				c.count("trees_with_several_names_of_a_directory", 1)
			}
		}
		// Single directories, written in several ways
		var dirs []Node
		for _, n := range nodes {
			if n.E.Type == ftDir && !strings.Contains(n.Path, "\x00") {
				dirs = append(dirs, n)
			}
		}
		dirs = append(dirs, Node{Path: "", Owner: oFS, Ino: 256})
		for k := 0; k < c.pick(10, 25); k++ {
			n := dirs[r.Intn(len(dirs))]
			rec, inode := r.Intn(3) == 0, r.Intn(2) == 0
			want, multi := wantSections(v, n.Owner, n.Ino, rec, inode)
			p := "/" + n.Path
			if n.Path != "" {
				switch r.Intn(4) {
				case 0:
					p = n.Path
				case 1:
					p += "/"
				case 2:
					p = "//" + strings.Replace(n.Path, "/", "/./", 1)
				}
			}
			a := []string{}
			if rec {
				a = append(a, "--recursive")
			}
			if inode {
				a = append(a, "--inode")
			}
			got, res, ok := run(append(a, "--", p)...)
			if !ok {
				return
			}
			if strings.Contains(string(res.Err), "cannot lookup") {
				c.violated("case %d: ls %q does not find the directory: %v", i, p, res)
				return
			}
			c.compareSections(fmt.Sprintf("case %d: ls %v %q", i, a, p), got, want, !multi)
			count(want)
		}
		// Several paths, among them ones that do not exist
		for k := 0; k < c.pick(6, 15) && len(nodes) > 0; k++ {
			rec, inode := r.Intn(4) == 0, r.Intn(2) == 0
			var paths, missing []string
			var files, below []lsLine
			usable, nd, anyMulti := true, 0, false
			for len(paths) < 2+r.Intn(5) {
				switch r.Intn(4) {
				case 0:
					m := fmt.Sprintf("no such entry %d", len(paths))
					if r.Intn(2) == 0 {
						if d := dirs[r.Intn(len(dirs))]; d.Path != "" {
							m = d.Path + "/" + m
						}
					}
					paths, missing = append(paths, m), append(missing, m)
				case 1:
					n := dirs[r.Intn(len(dirs))]
					want, multi := wantSections(v, n.Owner, n.Ino, rec, inode)
					anyMulti = anyMulti || multi
					paths = append(paths, "/"+n.Path)
					for _, s := range want {
						below = append(below, s.Lines...)
					}
					nd++
				default:
					n := nodes[r.Intn(len(nodes))]
					if n.E.Type == ftDir || strings.Contains(n.Path, "\x00") {
						if r.Intn(8) == 0 {
							usable = false
						}
						if !usable {
							break
						}
						continue
					}
					paths = append(paths, n.Path)
					files = append(files, wantLine(v, n.Owner, n.E, inode))
				}
				if !usable {
					break
				}
			}
			if !usable || anyMulti || r.Intn(4) == 0 && len(missing) == 0 {
				continue
			}
			a := []string{}
			if rec {
				a = append(a, "--recursive")
			}
			if inode {
				a = append(a, "--inode")
			}
			got, res, ok := run(append(append(a, "--"), paths...)...)
			if !ok {
				return
			}
			var lines, want []string
			for _, s := range got {
				for _, l := range s.Lines {
					lines = append(lines, l.String())
				}
			}
			for _, l := range append(files, below...) {
				want = append(want, l.String())
			}
			if rec {
				// The order of directories below one another is free
				sort.Strings(lines)
				sort.Strings(want)
			}
			if strings.Join(lines, "\n") != strings.Join(want, "\n") {
				c.violated("case %d: ls %v %q lists something else:\n%s", i, a, paths, diffLines(strings.Join(want, "\n"), strings.Join(lines, "\n")))
				return
			}
			if n := strings.Count(string(res.Err), "cannot lookup"); n != len(missing) {
				c.violated("case %d: ls %v %q reports %d missing paths instead of %d: %v", i, a, paths, n, len(missing), res)
				return
			}
			c.count("evaluations", len(lines))
			c.count("listings_of_several_paths", 1)
			c.count("missing_paths_named", len(missing))
			c.seen("several_paths", len(files) > 0, nd, len(missing), rec)
		}
		// Single entries that are no directories
		for k := 0; k < 4 && len(nodes) > 0; k++ {
			n := nodes[r.Intn(len(nodes))]
			if n.E.Type == ftDir || strings.Contains(n.Path, "\x00") {
				continue
			}
			inode := r.Intn(2) == 0
			a := []string{}
			if inode {
				a = append(a, "--inode")
			}
			got, _, ok := run(append(a, "--", n.Path)...)
			if !ok {
				return
			}
			want := []lsSection{{Lines: []lsLine{wantLine(v, n.Owner, n.E, inode)}}}
			c.compareSections(fmt.Sprintf("case %d: ls %q", i, n.Path), got, want, true)
			count(want)
		}
		if len(nodes) > 1 && i < 3 {
			c.sample(map[string]any{"image": s.fs.describe(), "entries": len(nodes), "a path": nodes[len(nodes)/2].Path})
		}
	})
}
