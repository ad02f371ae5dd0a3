package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"go.etcd.io/bbolt"
)

func init() {
	checks["C30"] = checkDef{fn: checkC30, level: "exploration", min: 2000,
		rule: "an enumerated table of refused command lines (metadata, id, block size and image each missing, malformed, damaged, unreadable or mismatching, image one byte too small, wrong argument counts) crossed with absent and present metadata and destination; exit status, message and a snapshot of all files observed; an evaluation is one refused command"}
}

// metaBad makes metadata files that no reader can use. The value tells
// whether a scan must refuse them as well.
var metaBad = []struct {
	name string
	scan bool
	make func(r *rand.Rand, path string, good []byte)
}{
	{"random bytes", true, func(r *rand.Rand, p string, good []byte) {
		b := make([]byte, 1+r.Intn(100000))
		r.Read(b)
		must(os.WriteFile(p, b, 0644))
	}},
	{"zeros", true, func(r *rand.Rand, p string, good []byte) { must(os.WriteFile(p, make([]byte, 65536), 0644)) }},
	{"text", true, func(r *rand.Rand, p string, good []byte) { must(os.WriteFile(p, []byte("no database\n"), 0644)) }},
	{"start overwritten", true, func(r *rand.Rand, p string, good []byte) {
		b := append([]byte{}, good...)
		copy(b, make([]byte, 8192))
		must(os.WriteFile(p, b, 0644))
	}},
	{"cut off", true, func(r *rand.Rand, p string, good []byte) {
		must(os.WriteFile(p, good[:1+r.Intn(16383)], 0644))
	}},
	{"empty file", false, func(r *rand.Rand, p string, good []byte) { must(os.WriteFile(p, nil, 0644)) }},
	{"directory", true, func(r *rand.Rand, p string, good []byte) { must(os.Mkdir(p, 0755)) }},
	{"dangling link", false, func(r *rand.Rand, p string, good []byte) { must(os.Symlink("nowhere/x", p)) }},
	{"older version", true, func(r *rand.Rand, p string, good []byte) {
		must(os.WriteFile(p, good, 0644))
		patchVersion(p, []uint64{0, 1, 20161109}[r.Intn(3)])
	}},
	{"newer version", true, func(r *rand.Rand, p string, good []byte) {
		must(os.WriteFile(p, good, 0644))
		patchVersion(p, ^uint64(r.Intn(1000)))
	}},
	{"other database", false, func(r *rand.Rand, p string, good []byte) {
		db, err := bbolt.Open(p, 0644, nil)
		must(err)
		must(db.Update(func(tx *bbolt.Tx) error {
			_, err := tx.CreateBucket([]byte("other"))
			return err
		}))
		must(db.Close())
	}},
	{"missing file", false, func(r *rand.Rand, p string, good []byte) {}},
}

// patchVersion changes the format version in a metadata file.
func patchVersion(path string, v uint64) {
	db, err := bbolt.Open(path, 0644, nil)
	must(err)
	must(db.Update(func(tx *bbolt.Tx) error {
		b := tx.Bucket([]byte("index"))
		k, m := b.Cursor().Last()
		m = append([]byte{}, m...)
		le64(m, v)
		return b.Put(append([]byte{}, k...), m)
	}))
	must(db.Close())
}

// statLine tells a file's size and times.
func statLine(p string) string {
	fi, err := os.Stat(p)
	must(err)
	return fmt.Sprint(fi.Size(), fi.Mode(), fi.ModTime().UnixNano())
}

func checkC30(c *Check) {
	c.par(c.pick(6, 60), func(i int) {
		r := c.rng(i)
		bs := blockSizes[r.Intn(len(blockSizes))]
		base := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(base)
		must(os.Chmod(base, 0755))
		fs := newFS(r, bs, sizeFor(r, bs, 1))
		generate(fs, genOpts{entries: 25, subvols: 1, gens: 2, xattrs: true})
		img := filepath.Join(base, "img")
		fs.writeImage(img, imgOpts{})
		good := filepath.Join(base, "good")
		if !c.recon(bs, fs.FSID, good, img) {
			return
		}
		gb, err := os.ReadFile(good)
		must(err)
		id := fs.FSID.String()
		B := fmt.Sprint(bs)
		n := 0
		// try runs one refused command. setup prepares the folder w the
		// arguments may name.
		try := func(what string, uid int, env []string, prep func(w string), args func(w string) []string) {
			for _, full := range []bool{false, true} {
				if c.failed() {
					return
				}
				n++
				w := filepath.Join(base, fmt.Sprint("w", n))
				must(os.Mkdir(w, 0755))
				if full { // the destination exists and holds something
					must(os.MkdirAll(filepath.Join(w, "dst", "sub"), 0755))
					must(os.WriteFile(filepath.Join(w, "dst", "keep"), []byte("keep"), 0644))
				}
				must(os.Mkdir(filepath.Join(w, "mnt"), 0755))
				prep(w)
				a := args(w)
				own := uid
				for _, x := range a {
					if x == "recover" { // these never run as root
						own = nobody
					}
				}
				if own != 0 {
					must(os.Lchown(w, own, own))
					if full {
						chownAll(filepath.Join(w, "dst"), own)
					}
				}
				var ev []string
				for _, e := range env {
					ev = append(ev, strings.ReplaceAll(e, "W/", w+"/"))
				}
				before, ib := treeSum(w), statLine(img)
				res := c.cli(runOpts{cpu: 60, uid: uid, env: ev, dir: w}, a...)
				c.count("evaluations", 1)
				c.seen("case", what, full)
				c.seen("exit", res.Code)
				if res.Code == 0 {
					c.violated("case %d: %s was not refused: %v", i, what, res)
				}
				if len(strings.TrimSpace(string(res.Err))) == 0 {
					c.violated("case %d: %s was refused without a message: %v", i, what, res)
				}
				if after := treeSum(w); after != before {
					c.violated("case %d: %s was refused, but left changes:\n%s\n%v", i, what, diffLines(before, after), res)
				}
				if ia := statLine(img); ia != ib {
					c.violated("case %d: %s was refused, but changed the image", i, what)
				}
				os.RemoveAll(w)
			}
		}
		none := func(string) {}
		withMeta := func(w string) { must(os.WriteFile(filepath.Join(w, "m"), gb, 0644)) }
		type argf = func(w string) []string
		scan := func(bs, id string) argf {
			return func(w string) []string {
				a := []string{"recon", "-p=false"}
				if bs != "-" {
					a = append(a, "--block-size", bs)
				}
				if id != "-" {
					a = append(a, "--id", id)
				}
				return append(a, "--metadata", filepath.Join(w, "m"), img)
			}
		}
		repl := func(f argf, im string) argf {
			return func(w string) []string {
				a := f(w)
				for k := range a {
					if a[k] == img {
						a[k] = strings.ReplaceAll(im, "W/", w+"/")
					}
				}
				return a
			}
		}
		readers := map[string]argf{
			"ls":         func(w string) []string { return []string{"ls", "--metadata", w + "/m"} },
			"ls path":    func(w string) []string { return []string{"ls", "--recursive", "--metadata", w + "/m", "/"} },
			"dump-index": func(w string) []string { return []string{"dump-index", "--metadata", w + "/m"} },
			"recover":    func(w string) []string { return []string{"recover", "--metadata", w + "/m", img, w + "/dst"} },
			"clobber": func(w string) []string {
				return []string{"recover", "--clobber", "--metadata", w + "/m", img, w + "/dst"}
			},
			"mount":     func(w string) []string { return []string{"mount", "--metadata", w + "/m", w + "/mnt"} },
			"mount dev": func(w string) []string { return []string{"mount", "--metadata", w + "/m", img, w + "/mnt"} },
		}
		names := []string{"ls", "ls path", "dump-index", "recover", "clobber", "mount", "mount dev"}

		// Commands that work, so that the refusals mean something.
		ctl := c.dir(fmt.Sprint("c", i, "/ctl"))
		for _, a := range [][]string{scan(B, id)(ctl), {"identify", "-p=false", "--block-size", B, img}, readers["ls"](ctl), readers["dump-index"](ctl), readers["recover"](ctl)} {
			if res := c.cli(runOpts{}, a...); res.Code != 0 {
				c.violated("case %d: a valid command was refused: %v", i, res)
				return
			}
			c.count("accepted_controls", 1)
		}

		// Metadata
		for _, rd := range names {
			strip := func(w string) []string {
				a := readers[rd](w)
				for k := range a {
					if a[k] == "--metadata" {
						return append(append([]string{}, a[:k]...), a[k+2:]...)
					}
				}
				return a
			}
			try(rd+" without metadata", 0, nil, none, strip)
			try(rd+" with empty metadata option", 0, []string{"BTRFSCUE_METADATA="}, withMeta, func(w string) []string {
				return append([]string{"--metadata", ""}, strip(w)...)
			})
			for _, m := range metaBad {
				prep := func(w string) { m.make(r, filepath.Join(w, "m"), gb) }
				try(rd+" with metadata: "+m.name, 0, nil, prep, readers[rd])
				if r.Intn(4) == 0 {
					try(rd+" with metadata from the environment: "+m.name, 0, []string{"BTRFSCUE_METADATA=W/m"}, prep, strip)
				}
			}
			try(rd+" with unreadable metadata", nobody, nil, func(w string) {
				withMeta(w)
				must(os.Chmod(filepath.Join(w, "m"), 0))
			}, readers[rd])
			try(rd+" with an unknown option", 0, nil, withMeta, func(w string) []string { return append(readers[rd](w), "--frobnicate") })
		}
		strip := func(w string) []string { return []string{"recon", "-p=false", "--block-size", B, "--id", id, img} }
		try("recon without metadata", 0, nil, none, strip)
		for _, m := range metaBad {
			if m.scan {
				try("recon with metadata: "+m.name, 0, nil, func(w string) { m.make(r, filepath.Join(w, "m"), gb) }, scan(B, id))
			}
		}
		try("recon with metadata in a missing folder", 0, nil, none, func(w string) []string {
			return []string{"recon", "-p=false", "--block-size", B, "--id", id, "--metadata", w + "/no/m", img}
		})
		try("recon with unwritable metadata", nobody, nil, func(w string) {
			withMeta(w)
			must(os.Chmod(filepath.Join(w, "m"), 0444))
		}, scan(B, id))
		other := fs.FSID
		other[r.Intn(16)] ^= 1 << r.Intn(8)
		try("recon with metadata of another id", 0, nil, withMeta, scan(B, other.String()))
		try("recon with metadata of another block size", 0, nil, withMeta, scan(fmt.Sprint(bs/2), id))

		// Ids, block sizes, images; with and without existing metadata
		for _, prep := range []func(string){none, withMeta} {
			for _, x := range []string{"-", "", "00000000-0000-0000-0000-000000000000", "x", id[:35], id + "0", "g" + id[1:], strings.Repeat("0", 32), " " + id} {
				try(fmt.Sprintf("recon with id %q", x), 0, nil, prep, scan(B, x))
			}
			for _, x := range []string{"0", "1", "100", "125", "x", "", "-1", "-16384", "1099511627776", "18446744073709551616", "9223372036854775808", "18446744073709551615", "4k", "16384.5", "184467440737095517"} {
				try(fmt.Sprintf("recon with block size %q", x), 0, nil, prep, scan(x, id))
				try(fmt.Sprintf("identify with block size %q", x), 0, nil, prep, func(w string) []string { return []string{"identify", "-p=false", "--block-size", x, img} })
			}
			ident := func(w string) []string { return []string{"identify", "-p=false", "--block-size", B, img} }
			withSize := func(n uint64) func(w string) {
				return func(w string) {
					prep(w)
					b := make([]byte, 1<<20)
					f, err := os.Open(img)
					must(err)
					f.ReadAt(b, 0)
					f.Close()
					must(os.WriteFile(w+"/small", b[:min(n, 1<<20)], 0644))
					must(os.Truncate(w+"/small", int64(n)))
				}
			}
			for _, n := range []uint64{0, 1, 125, bs - 1, bs, 65536, 65536 + 4096, 1 << 20, 64 << 20, 64<<20 + bs, minImageSize(bs) - 1} {
				try(fmt.Sprintf("recon of an image of %d bytes", n), 0, nil, withSize(n), repl(scan(B, id), "W/small"))
				try(fmt.Sprintf("identify of an image of %d bytes", n), 0, nil, withSize(n), repl(ident, "W/small"))
			}
			for _, im := range []string{"W/none", "W/no/none", "W/mnt", "W/loop", ""} {
				p := func(w string) {
					prep(w)
					must(os.Symlink("loop", w+"/loop"))
				}
				try(fmt.Sprintf("recon of image %q", im), 0, nil, p, repl(scan(B, id), im))
				try(fmt.Sprintf("identify of image %q", im), 0, nil, p, repl(ident, im))
			}
			p := func(w string) {
				prep(w)
				must(os.WriteFile(w+"/secret", make([]byte, 100), 0600))
			}
			try("recon of an unreadable image", nobody, nil, p, repl(scan(B, id), "W/secret"))
			try("identify of an unreadable image", nobody, nil, p, repl(ident, "W/secret"))
			try("recon without image", 0, nil, prep, func(w string) []string { a := scan(B, id)(w); return a[:len(a)-1] })
			try("recon of two images", 0, nil, prep, func(w string) []string { return append(scan(B, id)(w), img) })
		}
		for _, im := range []string{"W/none", "W/no/none", "W/mnt", ""} {
			for _, rd := range []string{"recover", "clobber", "mount dev"} {
				try(fmt.Sprintf("%s with image %q", rd, im), 0, nil, withMeta, repl(readers[rd], im))
			}
		}
		try("recover with an unreadable image", nobody, nil, func(w string) {
			withMeta(w)
			must(os.WriteFile(w+"/secret", make([]byte, 100), 0600))
		}, repl(readers["recover"], "W/secret"))

		// Destinations
		for _, x := range []string{"file", "file/below", "file/far/below", "dangling", "loop", "loop/below", "closed/below", "", "dangling/below", strings.Repeat("n", 256)} {
			x := x
			for _, clob := range []string{"recover", "clobber"} {
				try(fmt.Sprintf("%s to %.20q", clob, x), 0, nil, func(w string) {
					withMeta(w)
					must(os.WriteFile(w+"/file", []byte("a file of the user"), 0644))
					must(os.Symlink("nowhere", w+"/dangling"))
					must(os.Symlink("loop", w+"/loop"))
					must(os.Mkdir(w+"/closed", 0555)) // by root
				}, func(w string) []string {
					a := readers[clob](w)
					a[len(a)-1] = w + "/" + x
					if x == "" {
						a[len(a)-1] = ""
					}
					return a
				})
			}
		}

		// Argument counts
		fixed := func(a ...string) argf {
			return func(w string) []string {
				out := []string{}
				for _, x := range a {
					out = append(out, strings.ReplaceAll(x, "W/", w+"/"))
				}
				return out
			}
		}
		for _, a := range [][]string{
			{"identify"}, {"identify", "-p=false", img, img}, {"identify", "-p=false", "--sample-fraction", "x", img}, {"identify", "--min-blocks", "-1", img},
			{"identify", "--max-blocks", "1e6", img}, {"identify", "--min-occurrence", "", img}, {"identify", "--frobnicate", img},
			{"dump-index", "--metadata", "W/m", "W/dst"}, {"dump-index", "--metadata", "W/m", "W/m"},
			{"recover", "--metadata", "W/m"}, {"recover", "--metadata", "W/m", img}, {"recover", "--metadata", "W/m", img, "W/dst", "W/dst2"},
			{"recover", "--clobber", "--metadata", "W/m", "W/dst"},
			{"mount", "--metadata", "W/m"}, {"mount", "--metadata", "W/m", img, "W/mnt", "W/mnt"},
			{"frobnicate"}, {"recon"}, {"recon", "--metadata", "W/m"},
		} {
			try("arguments "+strings.ReplaceAll(strings.Join(a, " "), img, "IMG"), 0, nil, withMeta, fixed(a...))
		}
		if i == 0 {
			c.sample(map[string]any{"block size": bs, "id": id, "refused commands tried": n})
		}
	})
}
