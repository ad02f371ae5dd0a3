package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() {
	checks["C36"] = checkDef{fn: checkC36, level: "exploration", min: 900,
		rule: "every command run on generated images in a plain way and in variants: environment, runtime settings, folder, ways to name files, order and form of options, verbosity, progress display, standard input, repetitions; results are compared with those of the plain run; an evaluation is one variant run, non-trivial as every result compared has records, entries, files or ids; distinct ones differ in command and variant"}
}

// opt is an option with its value, or a flag if that is empty.
type opt struct{ name, value string }

var globalOpts = map[string]bool{"--metadata": true, "--block-size": true, "--machine": true, "--verbose": true, "--progress": true}
var shortOpts = map[string]string{"--verbose": "-v", "--progress": "-p", "--machine": "-m"}

// variant is a way to run a command.
type variant struct {
	o    runOpts
	desc []string
	r    *rand.Rand
	verb bool
}

func (v *variant) add(f string, a ...any) { v.desc = append(v.desc, fmt.Sprintf(f, a...)) }

// newVariant chooses the environment of a run.
func (c *Check) newVariant(r *rand.Rand, dir string, sub string) *variant {
	v := &variant{r: r}
	v.o.cpu = 120
	v.o.dir = dir
	env := func(ss ...string) {
		s := ss[r.Intn(len(ss))]
		v.o.env = append(v.o.env, s)
		v.add("%s", s)
	}
	if r.Intn(2) == 0 {
		env("GOMAXPROCS=1", "GOMAXPROCS=2", "GOMAXPROCS=3", "GOMAXPROCS=8", "GOMAXPROCS=64")
	}
	if r.Intn(3) == 0 {
		env("GOGC=1", "GOGC=10", "GOGC=off", "GOMEMLIMIT=20MiB", "GODEBUG=gctrace=0", "GODEBUG=madvdontneed=1", "GODEBUG=clobberfree=1")
	}
	if r.Intn(2) == 0 {
		env("TZ=Asia/Kolkata", "TZ=America/New_York", "TZ=Pacific/Kiritimati", "TZ=", "TZ=:/nonexistent", "TZ=UTC-14")
	}
	if r.Intn(3) == 0 {
		env("LC_ALL=tr_TR.UTF-8", "LANG=de_DE.UTF-8", "LC_ALL=POSIX", "LC_ALL=ja_JP.EUC-JP", "LANG=", "LANGUAGE=fr")
	}
	if r.Intn(4) == 0 {
		env("TERM=dumb", "TERM=xterm-256color", "COLUMNS=20", "COLUMNS=0", "NO_COLOR=1", "HOME=/nonexistent", "HOME=", "PWD=/", "TMPDIR=/nonexistent", "XDG_CONFIG_HOME=/nonexistent")
	}
	switch r.Intn(4) {
	case 0:
		v.o.stdin = bytes.NewReader(nil)
	case 1:
		v.o.stdin = strings.NewReader(strings.Repeat("y\n", 1000))
		v.add("input")
	}
	return v
}

// path writes the name of an existing file in another way.
func (v *variant) path(p string) string {
	switch v.r.Intn(6) {
	case 0:
		rel, err := filepath.Rel(v.o.dir, p)
		must(err)
		v.add("relative")
		return rel
	case 1:
		rel, err := filepath.Rel(v.o.dir, p)
		must(err)
		v.add("relative")
		return "./" + rel
	case 2:
		v.add("//")
		return "/" + filepath.Dir(p) + "//./" + filepath.Base(p)
	case 3:
		v.add("link")
		l := filepath.Join(v.o.dir, fmt.Sprintf("a link%d", v.r.Int63()))
		must(os.Symlink(p, l))
		return l
	}
	return p
}

// args arranges a command line.
func (v *variant) args(sub string, opts []opt, pos ...string) []string {
	r := v.r
	var before, in, after []string
	if r.Intn(2) == 0 {
		p := opt{"--progress", []string{"", "=true", "=false", "=0", "=T"}[r.Intn(5)]}
		opts = append(append([]opt{}, opts...), p)
	}
	if r.Intn(3) == 0 {
		v.verb = true
		opts = append(append([]opt{}, opts...), opt{"--verbose", []string{"", "=true", "=1"}[r.Intn(3)]})
	} else if r.Intn(4) == 0 {
		opts = append(append([]opt{}, opts...), opt{"--verbose", "=false"})
	}
	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	for _, o := range opts {
		var s []string
		name := o.name
		if sh := shortOpts[name]; sh != "" && r.Intn(2) == 0 {
			name = sh
		}
		switch {
		case o.value == "" || strings.HasPrefix(o.value, "="):
			s = []string{name + o.value}
		case r.Intn(2) == 0:
			s = []string{name + "=" + o.value}
		default:
			s = []string{name, o.value}
		}
		switch k := r.Intn(4); {
		case k == 0 && globalOpts[o.name]:
			before = append(before, s...)
		case k == 1:
			after = append(after, s...)
		default:
			in = append(in, s...)
		}
	}
	out := append(append(before, sub), in...)
	if len(after) == 0 && r.Intn(2) == 0 {
		out = append(out, "--")
	}
	out = append(out, pos...)
	return append(out, after...)
}

var warnRe = regexp.MustCompile(`btrfscue: [^\n\r]*`)

// warnings are the messages of a run, in any order.
func warnings(res Res, repl ...string) string {
	ws := warnRe.FindAllString(strings.NewReplacer(repl...).Replace(string(res.Err)), -1)
	sort.Strings(ws)
	return strings.Join(ws, "\n")
}

// without tells whether taking away some lines of got gives want.
func sameOutput(want, got []byte, verbose bool) bool {
	if bytes.Equal(want, got) {
		return true
	}
	if !verbose {
		return false
	}
	w := strings.SplitAfter(string(want), "\n")
	for _, l := range strings.SplitAfter(string(got), "\n") {
		if len(w) > 0 && l == w[0] {
			w = w[1:]
		}
	}
	return len(w) == 0 || len(w) == 1 && w[0] == ""
}

func checkC36(c *Check) {
	c.par(c.pick(40, 400), func(i int) {
		r := c.rng(i)
		o := genOpts{entries: 20 + r.Intn(80), subvols: r.Intn(4), orphans: r.Intn(4), gens: r.Intn(4), specials: true, xattrs: true, collide: i%2 == 0,
			missing: i%3 == 0, encoded: i%3 == 1, lineNames: i%4 == 0, deep: 1 + r.Intn(8)}
		s := c.makeSetup(fmt.Sprint("c", i), r, o, true, true, func(fs *FS) {
			if i%5 == 1 {
				addCycles(fs, r)
			}
		})
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		must(os.Chmod(s.dir, 0777))
		decoy := filepath.Join(s.dir, "decoy")
		buildIndex(decoy, randRecs(r, 40, 0))
		bs := fmt.Sprint(s.fs.BS)
		base := runOpts{cpu: 120, dir: s.dir}
		serial := 0
		// metaOpts names the metadata file in one of several ways.
		metaOpts := func(v *variant, p string, exists bool) []opt {
			if exists {
				p = v.path(p)
			}
			switch v.r.Intn(4) {
			case 0:
				v.o.env = append(v.o.env, "BTRFSCUE_METADATA="+p)
				v.add("metadata by variable")
				return nil
			case 1:
				d := []string{decoy, filepath.Join(s.dir, "none"), "/", s.img}[v.r.Intn(4)]
				v.o.env = append(v.o.env, "BTRFSCUE_METADATA="+d)
				v.add("option overrides variable")
			}
			return []opt{{"--metadata", p}}
		}
		report := func(cmd string, v *variant, res Res, f string, a ...any) {
			c.violated("case %d: %s with %v (environment %q, folder %s): %s\n%v", i, cmd, v.desc, v.o.env, v.o.dir, fmt.Sprintf(f, a...), res)
		}
		done := func(cmd string, v *variant) {
			c.count("evaluations", 1)
			c.count("variants_of_"+cmd, 1)
			c.seen("case", i, cmd, v.desc, serial)
			for _, d := range v.desc {
				c.seen("variation", cmd, d)
			}
			if v.verb {
				c.count("verbose_runs", 1)
			}
		}
		output := func(cmd string, v *variant, b, res Res, norm ...string) bool {
			if res.Code != b.Code {
				report(cmd, v, res, "the exit status is %d instead of %d", res.Code, b.Code)
				return false
			}
			if !sameOutput(b.Out, res.Out, v.verb) {
				report(cmd, v, res, "the output differs:\n%s", diffLines(string(b.Out), string(res.Out)))
				return false
			}
			if w, g := warnings(b, norm...), warnings(res, norm...); w != g {
				report(cmd, v, res, "the messages differ:\n%s", diffLines(w, g))
				return false
			}
			return true
		}
		// Queries: ls and dump-index
		var paths []string
		s.v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
			switch {
			case strings.Contains(n.Path, "\x00"):
			case strings.HasPrefix(n.Path, "-"): // would be an option
				paths = append(paths, "/"+n.Path)
			default:
				paths = append(paths, n.Path)
			}
		})
		type query struct {
			cmd  string
			opts []opt
			pos  []string
		}
		qs := []query{{"ls", []opt{{"--recursive", ""}, {"--inode", ""}}, nil}, {"ls", []opt{{"--recursive", ""}}, []string{"/"}}, {"dump-index", nil, nil}}
		for k := 0; k < 2 && len(paths) > 0; k++ {
			qs = append(qs, query{"ls", []opt{{"--inode", []string{"=true", "=false"}[k]}}, []string{paths[r.Intn(len(paths))], "no such", "/" + paths[r.Intn(len(paths))]}})
		}
		for _, q := range qs {
			a := []string{q.cmd, "--metadata", s.meta}
			for _, o := range q.opts {
				a = append(a, o.name+o.value)
			}
			b := c.cli(base, append(append(a, "--"), q.pos...)...)
			for k := 0; k < c.pick(5, 12) && !c.failed(); k++ {
				serial++
				v := c.newVariant(r, s.dir, q.cmd)
				opts := append(append([]opt{}, q.opts...), metaOpts(v, s.meta, true)...)
				a := v.args(q.cmd, opts, q.pos...)
				res := c.cli(v.o, a...)
				if !output(q.cmd, v, b, res) {
					return
				}
				done(q.cmd, v)
			}
		}
		// identify, all blocks sampled
		{
			// Ids that are equally random, so that only themselves are left
			// to order them by
			f, err := os.OpenFile(s.img, os.O_WRONLY, 0)
			must(err)
			for k := 5 + r.Intn(30); k > 0; k-- {
				id := randUUID(r)
				for x := 2 + r.Intn(2); x > 0; x-- {
					p := s.fs.takeRegions(1)
					b := make([]byte, s.fs.BS)
					copy(b[32:], id[:])
					_, err := f.WriteAt(b, int64(p))
					must(err)
				}
			}
			f.Close()
			nb := fmt.Sprint(s.fs.Size/s.fs.BS + 100000)
			opts := []opt{{"--min-blocks", nb}, {"--max-blocks", nb}, {"--block-size", bs}, {"--min-occurrence", "2"}}
			a := []string{"identify"}
			for _, o := range opts {
				a = append(a, o.name+"="+o.value)
			}
			for m := 0; m < 2; m++ {
				if m == 1 {
					a = append(a, "--machine")
					opts = append(opts, opt{"--machine", ""})
				}
				b := c.cli(base, append(a, s.img)...)
				for k := 0; k < c.pick(2, 5) && !c.failed(); k++ {
					serial++
					v := c.newVariant(r, s.dir, "identify")
					if v.r.Intn(2) == 0 {
						v.o.env = append(v.o.env, "BTRFSCUE_METADATA="+decoy)
					}
					res := c.cli(v.o, v.args("identify", append([]opt{}, opts...), v.path(s.img))...)
					if !output("identify", v, b, res) {
						return
					}
					done("identify", v)
				}
			}
		}
		// recon
		{
			want, ok := c.readIndex("the plain scan", s.meta)
			if !ok {
				return
			}
			for k := 0; k < c.pick(4, 10) && !c.failed(); k++ {
				serial++
				v := c.newVariant(r, s.dir, "recon")
				meta := filepath.Join(s.dir, fmt.Sprintf("new meta %d", k))
				id := s.fs.FSID.String()
				if r.Intn(3) == 0 {
					id = strings.ToUpper(strings.ReplaceAll(id, "-", ""))
				}
				opts := append(metaOpts(v, meta, false), opt{"--id", id}, opt{"--block-size", bs})
				if r.Intn(3) == 0 {
					opts = append(opts, opt{"--append", ""})
				}
				res := c.cli(v.o, v.args("recon", opts, v.path(s.img))...)
				if res.Code != 0 {
					report("recon", v, res, "scanning failed")
					return
				}
				got, ok := c.readIndex(fmt.Sprintf("case %d: recon with %v", i, v.desc), meta)
				if !ok {
					return
				}
				if d := diffState(got, want); d != "" {
					report("recon", v, res, "other records: %s", d)
					return
				}
				if st, err := os.Stat(decoy); err != nil || st.Size() == 0 {
					report("recon", v, res, "the file named by the variable changed")
					return
				}
				os.Remove(meta)
				done("recon", v)
			}
		}
		// recover
		{
			rec := func(v *variant, a []string, dst string) (Res, string) {
				v.o.uid = nobody
				c.giveAway(dst)
				res := c.cli(v.o, a...)
				return res, treeSum(dst)
			}
			dst0 := filepath.Join(s.dir, "d0", "dst")
			must(os.Mkdir(filepath.Dir(dst0), 0755))
			b, want := rec(&variant{o: base}, []string{"recover", "--metadata", s.meta, s.img, dst0}, dst0)
			for k := 0; k < c.pick(4, 10) && !c.failed(); k++ {
				serial++
				v := c.newVariant(r, s.dir, "recover")
				dst := filepath.Join(s.dir, fmt.Sprint("d", k+1), "dst")
				must(os.Mkdir(filepath.Dir(dst), 0755))
				opts := metaOpts(v, s.meta, true)
				img := v.path(s.img)
				d := dst
				if r.Intn(2) == 0 { // it does not exist yet
					rel, err := filepath.Rel(v.o.dir, dst)
					must(err)
					d = rel + []string{"", "/", "/."}[r.Intn(3)]
				}
				if r.Intn(4) == 0 {
					opts = append(opts, opt{"--clobber", ""})
				}
				res, got := rec(v, v.args("recover", opts, img, d), dst)
				clean := filepath.Clean(d)
				if !output("recover", v, b, res, dst0, "DST", dst, "DST", clean+"/", "DST/", clean+":", "DST:", "in "+clean+"\n", "in DST\n") {
					return
				}
				if got != want {
					report("recover", v, res, "another tree is recovered:\n%s", diffLines(want, got))
					return
				}
				os.RemoveAll(filepath.Dir(dst))
				done("recover", v)
			}
		}
		// mount, judged by the model
		if i%4 == 0 {
			serial++
			v := c.newVariant(r, s.dir, "mount")
			opts := metaOpts(v, s.meta, false)
			args := []string{}
			for _, o := range opts {
				args = append(args, o.name+"="+o.value)
			}
			if r.Intn(2) == 0 {
				args = append(args, "--verbose")
			}
			what := fmt.Sprintf("case %d: mount with %v (environment %q)", i, v.desc, v.o.env)
			m := c.mustMount(what, s.dir, mountOpts{env: v.o.env}, append(args, s.img)...)
			if m == nil {
				return
			}
			k := &kclient{c: c, m: m, v: s.v, what: what, imgSize: s.fs.Size, quiet: true}
			if rt, ok := k.root(); ok {
				k.treeWalk(r, rt)
			}
			m.finish(what, true)
			done("mount", v)
		}
		if i < 3 {
			c.sample(map[string]any{"image": s.fs.describe(), "paths": len(paths)})
		}
	})
}
