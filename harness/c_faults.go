package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	checks["C35"] = checkDef{fn: checkC35, level: "fault_enumeration", min: 500,
		rule: "system calls that read the image or write answers or recovered files are made to fail (every kind of call, at random positions, once or from then on); the commands must not claim success then, and must succeed with complete results if the fault was not reached; an evaluation is one observed run, for recover one recovered file"}
}

// faulty runs the program with a system call on some files failing, and
// returns how often it did, or -1 if that may or may not matter. The standard output goes to the file out.
func (c *Check) faulty(d string, uid int, calls, errno, when string, paths []string, out string, args ...string) (Res, int) {
	tr := filepath.Join(d, "trace")
	os.Remove(tr)
	p := []string{}
	if out != "" {
		p = append(p, "/bin/sh", "-c", `exec >"$0"; exec "$@"`, out)
	}
	p = append(p, "strace", "-f", "-qq", "-o", tr, "-e", "trace="+calls, "-e", "signal=none", "-e", "inject="+calls+":error="+errno+":when="+when)
	for _, x := range paths {
		p = append(p, "-P", x)
	}
	res := c.run(runOpts{cpu: 200, uid: uid, prefix: p}, args...)
	b, err := os.ReadFile(tr)
	if err != nil {
		panic(fmt.Sprintf("harness: no trace: %v, %v", err, res))
	}
	hit, void := 0, false
	for _, l := range bytes.Split(b, []byte("\n")) {
		// Writes of nothing lose nothing
		if bytes.Contains(l, []byte("(INJECTED)")) {
			if bytes.Contains(l, []byte(`, "", 0)`)) {
				void = true
			} else {
				hit++
			}
		}
	}
	if hit == 0 && void {
		return res, -1
	}
	c.count("faults_injected", hit)
	c.count("calls_on_the_files", bytes.Count(b, []byte("\n")))
	if k := res.crash(); k != "" {
		c.violated("the command crashed (%s) when %s failed with %s: %v", k, calls, errno, res)
	}
	return res, hit
}

const readCalls = "pread64,read,preadv,preadv2,readv"

func faultWhen(r *rand.Rand, n int) string {
	w := fmt.Sprint(1 + r.Intn(n))
	switch r.Intn(4) {
	case 0:
		w = fmt.Sprint(1 + r.Intn(4))
	case 1:
		w += "+"
	}
	return w
}

func checkC35(c *Check) {
	c.par(c.pick(160, 2400), func(i int) {
		r := c.rng(i)
		o := genOpts{entries: 20 + r.Intn(80), subvols: r.Intn(3), gens: r.Intn(3), specials: true, collide: true, deep: 3, noRename: true, maxFile: 8}
		s := c.makeSetup(fmt.Sprint("c", i), r, o, false, true, nil)
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		d := c.dir(fmt.Sprint("f", i))
		defer os.RemoveAll(d)
		for round := 0; round < 3 && !c.failed(); round++ {
			c.faultRound(i, round, r, s, d)
		}
	})
}

func (c *Check) faultRound(i, round int, r *rand.Rand, s *setup, d string) {
	errno := []string{"EIO", "ENXIO", "ETIMEDOUT", "EREMOTEIO"}[r.Intn(4)]
	ident := []string{"identify", "-p=false", "--block-size", fmt.Sprint(s.fs.BS), "--sample-fraction", "1", "--max-blocks", "1000000", "--min-occurrence", "1", s.img}
	blocks := int(s.fs.Size / s.fs.BS)
	kind := (i*3 + round) % 8
	verdict := func(what string, res Res, hit int) bool {
		c.count("evaluations", 1)
		c.seen("case", i, round, what)
		if hit < 0 {
			return false
		}
		if hit > 0 {
			c.count("runs_with_faults", 1)
			if res.Code == 0 {
				c.violated("%s: %d faults, but the command claims success: %v", what, hit, res)
			} else if len(bytes.TrimSpace(res.Err)) == 0 {
				c.violated("%s: there is no error message: %v", what, res)
			}
		} else if res.Code != 0 {
			c.violated("%s: failed without a fault: %v", what, res)
		}
		return hit == 0 && res.Code == 0
	}
	switch kind {
	case 0, 1: // reading while scanning
		meta := filepath.Join(d, "meta")
		os.Remove(meta)
		when := faultWhen(r, blocks)
		what := fmt.Sprintf("case %d: scan of %d blocks with read number %s failing with %s", i, blocks, when, errno)
		res, hit := c.faulty(d, 0, readCalls, errno, when, []string{s.img}, "", reconArgs(s.fs.BS, s.fs.FSID, meta, s.img)...)
		if verdict(what, res, hit) {
			if got, ok := c.readIndex(what, meta); ok {
				if df := diffState(got, wantState(s.recs)); df != "" {
					c.violated("%s: %s", what, df)
				}
			}
			c.count("runs_without_faults_compared", 1)
		}
	case 2: // reading while identifying
		when := faultWhen(r, blocks)
		what := fmt.Sprintf("case %d: identification of %d blocks with read number %s failing with %s", i, blocks, when, errno)
		res, hit := c.faulty(d, 0, readCalls, errno, when, []string{s.img}, "", ident...)
		verdict(what, res, hit)
	case 3, 4, 5: // writing answers
		args := ident
		switch kind {
		case 4:
			args = []string{"ls", "--metadata", s.meta, "--recursive", "--inode"}
			if r.Intn(2) == 0 { // a single file or directory
				es := s.v.entries(oFS, 256)
				if len(es) > 0 {
					args = append(args[:3:3], "--", "/"+es[r.Intn(len(es))].Name)
				}
			}
		case 5:
			args = []string{"dump-index", "--metadata", s.meta}
		}
		ref := c.cli(runOpts{}, args...)
		if ref.Code != 0 {
			c.violated("case %d: %v", i, ref)
			return
		}
		if r.Intn(4) == 0 { // a full device
			res := c.cli(runOpts{prefix: []string{"/bin/sh", "-c", `exec >/dev/full; exec "$@"`, "sh"}}, args...)
			n := 0
			if len(ref.Out) > 0 {
				n = 1
			}
			verdict(fmt.Sprintf("case %d: %s to a full device", i, args[0]), res, n)
			return
		}
		out := filepath.Join(d, "out")
		errno = []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG"}[r.Intn(4)]
		when := faultWhen(r, []int{3, 5, 20, 200}[r.Intn(4)])
		what := fmt.Sprintf("case %d: %s with write number %s failing with %s", i, args[0], when, errno)
		res, hit := c.faulty(d, 0, "write,pwrite64,writev", errno, when, []string{out}, out, args...)
		if verdict(what, res, hit) {
			if b, err := os.ReadFile(out); err != nil || kind != 3 && !bytes.Equal(b, ref.Out) {
				c.violated("%s: the output differs from the one without faults: %v", what, err)
			}
			c.count("runs_without_faults_compared", 1)
		}
	default:
		c.recoverFaults(i, r, s, d)
	}
}

// recoverFaults lets reading or writing fail during a recovery.
func (c *Check) recoverFaults(i int, r *rand.Rand, s *setup, d string) {
	v := s.v
	type file struct {
		n    Node
		path string
		mode uint32
	}
	od := filepath.Join(d, "r")
	os.RemoveAll(od)
	dst := filepath.Join(od, "dst")
	must(os.MkdirAll(od, 0755))
	must(os.Chown(od, nobody, nobody))
	var files []file
	var dirs []string
	names := map[string]int{}
	v.walk(oFS, 256, "", map[[2]uint64]bool{}, func(n Node) {
		names[n.Path]++
		if p := filepath.Join(dst, n.Path); n.E.Type == ftDir && len(p) < 200 {
			dirs = append(dirs, p)
		}
		if n.E.Type == ftReg || n.E.Type == ftSymlink {
			files = append(files, file{n: n, path: filepath.Join(dst, n.Path)})
		}
	})
	if len(files) == 0 {
		return
	}
	calls, errno, paths := "pwrite64,ftruncate,write", []string{"ENOSPC", "EIO", "EDQUOT"}[r.Intn(3)], []string(nil)
	when := faultWhen(r, 2*len(files))
	pickFiles := func(t uint8) (out []string) {
		for _, k := range r.Perm(len(files)) {
			if files[k].n.E.Type == t && len(out) < 8 && len(files[k].path) < 200 {
				out = append(out, files[k].path)
			}
		}
		return
	}
	quiet := false // it may manage all the same
	switch r.Intn(8) {
	case 0:
		calls, errno, paths = readCalls, []string{"EIO", "ENXIO", "EREMOTEIO"}[r.Intn(3)], []string{s.img}
	case 1:
		calls = "pwrite64,ftruncate"
	case 2:
		calls, paths, when = "close", pickFiles(ftReg), fmt.Sprint(1+r.Intn(5))
	case 3:
		calls, paths, when = "openat", pickFiles(ftReg), fmt.Sprint(1+r.Intn(5))
		errno = []string{"ENOSPC", "EACCES", "EMFILE", "EDQUOT"}[r.Intn(4)]
	case 4:
		calls, paths, when = "symlinkat", pickFiles(ftSymlink), fmt.Sprint(1+r.Intn(3))
	case 5:
		calls, paths, when, quiet = "newfstatat", pickFiles([]uint8{ftReg, ftSymlink}[r.Intn(2)]), fmt.Sprint(1+r.Intn(5)), true
		if r.Intn(3) == 0 && len(dirs) > 0 {
			paths = []string{dirs[r.Intn(len(dirs))]}
			when = "1"
		}
		errno = []string{"EACCES", "EIO", "ENOMEM", "ELOOP"}[r.Intn(4)]
	case 6:
		calls, paths, when, quiet = "fstat", pickFiles(ftReg), fmt.Sprintf("%d..%d", 1+r.Intn(3), 3+r.Intn(9)), true
	case 7:
		calls, when = "mkdirat", "1"
		if len(dirs) > 0 {
			paths = []string{dirs[r.Intn(len(dirs))]}
		}
	}
	if calls != "pwrite64,ftruncate" && calls != "pwrite64,ftruncate,write" && len(paths) == 0 {
		return
	}
	if calls == "pwrite64,ftruncate,write" {
		calls = "pwrite64,ftruncate"
	}
	what := fmt.Sprintf("case %d: recovery of %d files with %s number %s failing with %s", i, len(files), calls, when, errno)
	res, hit := c.faulty(od, nobody, calls, errno, when, paths, "", "recover", "--metadata", s.meta, s.img, dst)
	c.count("recoveries", 1)
	if hit > 0 {
		c.count("recoveries_with_faults", 1)
		c.count("recoveries_with_failing_"+strings.Split(calls, ",")[0], 1)
	}
	msg := string(res.Err)
	told := strings.Contains(msg, "failed") || res.Code != 0
	if hit > 0 && !told && !quiet {
		c.violated("%s: %d faults, but no warning: %v", what, hit, res)
		return
	}
	if hit == 0 && (told || res.Code != 0) {
		c.violated("%s: it warns without a fault: %v", what, res)
		return
	}
	nbad := 0
	for _, f := range files {
		c.count("evaluations", 1)
		c.seen("case", i, f.n.Path, calls)
		df := ""
		if f.n.E.Type == ftReg {
			df = compareFile(v, f.n.Owner, f.n.Ino, f.path)
		} else if t, err := os.Readlink(f.path); err != nil {
			df = err.Error()
		} else if w, _ := v.linkTarget(f.n.Owner, f.n.Ino); w != t {
			df = "other target"
		}
		if df == "" {
			continue
		}
		nbad++
		if hit == 0 {
			c.violated("%s: %q: %s", what, f.n.Path, df)
			return
		}
		if calls == "mkdirat" && strings.HasPrefix(f.path, paths[0]+"/") && strings.Contains(msg, paths[0]) {
			nbad--
			c.count("files_below_a_named_directory", 1)
			continue
		}
		if !strings.Contains(msg, f.path) && !strings.Contains(msg, fmt.Sprintf("%q", f.path)) && res.Code == 0 {
			c.violated("%s: %q is not restored (%s), but no warning names it: %v", what, f.n.Path, df, res)
			return
		}
	}
	c.count("files_not_restored_and_named", nbad)
	if nbad > hit {
		c.violated("%s: %d faults kept %d files from being restored: %v", what, hit, nbad, res)
	}
}
