package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"go.etcd.io/bbolt"
)

func init() {
	checks["C38"] = checkDef{fn: checkC38, level: "exploration", min: 400,
		rule: "metadata files written by scans, by the library and by an independent writer of the format that released versions use; those of the program are decoded by an independent reader, those of the independent writer are read, listed, dumped, recovered, mounted and continued by the program; results are compared with the model; an evaluation is one record or one command; distinct ones differ in record or command and image"}
}

// The metadata format since version 20190809: one bucket, "index". Its keys are
// owner, type, object id, offset and generation, big endian; its values the
// item's descriptor in its leaf and its data. The last key is that of the
// metadata itself.
const formatVersion = 20190809

var formatMetaKey = rawKey(recKey{^uint64(0), Key{^uint64(0) - 255, 255, ^uint64(0)}, ^uint64(0)})

func formatMeta(version uint64, bs uint64, id UUID, gen uint64) []byte {
	m := make([]byte, 36)
	le64(m, version)
	le32(m[8:], uint32(bs))
	copy(m[12:], id[:])
	le64(m[28:], gen)
	return m
}

// rawValues are the values that records of leaves have in a metadata file, and
// those that they may have as well, as several leaves have them.
func (fs *FS) rawValues() (out map[recKey][]byte, also map[string]bool) {
	out, also = map[recKey][]byte{}, map[string]bool{}
	for j := range fs.Log {
		for n, it := range fs.Log[j].Items {
			k := recKey{it.Owner, it.Key, it.Gen}
			out[k] = append(append([]byte{}, fs.Log[j].Block[leafHdr+n*itemHdr:][:itemHdr]...), it.Data...)
			also[string(rawKey(k))+string(out[k])] = true
		}
	}
	return
}

// writeFormat writes a metadata file without the program's library.
func writeFormat(path string, meta []byte, recs map[recKey][]byte) {
	db, err := bbolt.Open(path, 0644, &bbolt.Options{NoSync: true})
	must(err)
	must(db.Update(func(tx *bbolt.Tx) error {
		b, err := tx.CreateBucket([]byte("index"))
		must(err)
		must(b.Put(formatMetaKey, meta))
		for k, v := range recs {
			must(b.Put(rawKey(k), v))
		}
		return nil
	}))
	must(db.Close())
}

// readFormat reads a metadata file without the program's library.
func readFormat(path string) (meta []byte, recs map[recKey][]byte, err error) {
	db, err := bbolt.Open(path, 0644, &bbolt.Options{ReadOnly: true})
	if err != nil {
		return nil, nil, err
	}
	defer db.Close()
	recs = map[recKey][]byte{}
	err = db.View(func(tx *bbolt.Tx) error {
		if err := tx.ForEach(func(name []byte, _ *bbolt.Bucket) error {
			if string(name) != "index" {
				return fmt.Errorf("unknown bucket %q", name)
			}
			return nil
		}); err != nil {
			return err
		}
		b := tx.Bucket([]byte("index"))
		if b == nil {
			return errors.New("no bucket \"index\"")
		}
		return b.ForEach(func(k, v []byte) error {
			if bytes.Equal(k, formatMetaKey) {
				meta = append([]byte{}, v...)
				return nil
			}
			if len(k) != 33 {
				return fmt.Errorf("key %x", k)
			}
			be := binary.BigEndian.Uint64
			recs[recKey{be(k), Key{be(k[9:]), k[8], be(k[17:])}, be(k[25:])}] = append([]byte{}, v...)
			return nil
		})
	})
	return
}

func checkC38(c *Check) {
	c.par(c.pick(24, 300), func(i int) {
		r := c.rng(i)
		o := genOpts{entries: 10 + r.Intn(60), subvols: r.Intn(4), orphans: r.Intn(3), gens: r.Intn(4), specials: true, xattrs: true, collide: i%2 == 0, deep: 1 + r.Intn(5)}
		s := c.makeSetup(fmt.Sprint("c", i), r, o, true, true, func(fs *FS) {
			if i%2 == 1 {
				used := map[recKey]bool{}
				for n := 1 + r.Intn(6); n > 0; n-- {
					fs.customLeaf(fs.slot(), used)
				}
			}
		})
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		must(os.Chmod(s.dir, 0777))
		what := fmt.Sprintf("case %d (%s)", i, s.fs.describe())
		want, also := s.fs.rawValues()
		meta := formatMeta(formatVersion, s.fs.BS, s.fs.FSID, ^uint64(0))
		// decode compares a file that the program wrote with the model.
		decode := func(how, path string) bool {
			m, recs, err := readFormat(path)
			if err != nil {
				c.violated("%s: the metadata file that %s wrote has not the format of version %d: %v", what, how, formatVersion, err)
				return false
			}
			if !bytes.Equal(m, meta) {
				c.violated("%s: the metadata file that %s wrote describes itself as %x instead of %x", what, how, m, meta)
				return false
			}
			for k, v := range want {
				if g, ok := recs[k]; !ok || !bytes.Equal(g, v) && !also[string(rawKey(k))+string(g)] {
					c.violated("%s: the metadata file that %s wrote has %x (found: %v) as record %v instead of %x", what, how, g, ok, k, v)
					return false
				}
				c.seen("case", i, how, k)
			}
			for k := range recs {
				if _, ok := want[k]; !ok {
					c.violated("%s: the metadata file that %s wrote has the unknown record %v", what, how, k)
					return false
				}
			}
			c.count("evaluations", len(want))
			c.count("records_decoded", len(want))
			return true
		}
		if !decode("a scan", s.meta) {
			return
		}
		// The same file from elsewhere
		foreign := filepath.Join(s.dir, "foreign")
		writeFormat(foreign, meta, want)
		got, ok := c.readIndex(what+": foreign metadata", foreign)
		if !ok {
			return
		}
		if d := diffState(got, wantState(s.recs)); d != "" {
			c.violated("%s: a metadata file of version %d from elsewhere is read wrong: %s", what, formatVersion, d)
			return
		}
		both := func(opt runOpts, args ...string) bool {
			a := c.cli(opt, append([]string{"--metadata", s.meta}, args...)...)
			b := c.cli(opt, append([]string{"--metadata", foreign}, args...)...)
			c.count("evaluations", 1)
			c.count("commands_on_foreign_metadata", 1)
			c.seen("case", i, args[0])
			if a.Code != b.Code || !bytes.Equal(a.Out, b.Out) || !bytes.Equal(a.Err, b.Err) {
				c.violated("%s: %v on a metadata file from elsewhere: %v\nbut on the same from a scan: %v", what, args, b, a)
				return false
			}
			return true
		}
		if !both(runOpts{}, "ls", "--recursive", "--inode") || !both(runOpts{}, "dump-index") {
			return
		}
		var trees [2]string
		for k, m := range []string{s.meta, foreign} {
			dst := filepath.Join(s.dir, fmt.Sprint("d", k), "dst")
			must(os.Mkdir(filepath.Dir(dst), 0755))
			c.giveAway(dst)
			res := c.cli(runOpts{uid: nobody}, "recover", "--metadata", m, s.img, dst)
			trees[k] = fmt.Sprint(res.Code, treeSum(dst))
			os.RemoveAll(filepath.Dir(dst))
		}
		c.count("evaluations", 1)
		c.count("commands_on_foreign_metadata", 1)
		if trees[0] != trees[1] {
			c.violated("%s: recovering with a metadata file from elsewhere differs: %s", what, diffLines(trees[0], trees[1]))
			return
		}
		if i%4 == 0 {
			m := c.mustMount(what+": foreign metadata", s.dir, mountOpts{}, "--metadata", foreign, s.img)
			if m == nil {
				return
			}
			k := &kclient{c: c, m: m, v: s.v, what: what, imgSize: s.fs.Size, quiet: true}
			if rt, ok := k.root(); ok {
				k.treeWalk(r, rt)
			}
			m.finish(what, true)
			c.count("commands_on_foreign_metadata", 1)
		}
		// Work begun elsewhere is continued.
		for _, part := range []int{0, 1 + r.Intn(len(want)), len(want)} {
			begun := filepath.Join(s.dir, fmt.Sprint("begun", part))
			some := map[recKey][]byte{}
			for k, v := range want {
				if len(some) < part {
					some[k] = v
				}
			}
			writeFormat(begun, meta, some)
			if !c.recon(s.fs.BS, s.fs.FSID, begun, s.img) || !decode(fmt.Sprintf("a scan continuing from %d of %d records", part, len(want)), begun) {
				return
			}
			os.Remove(begun)
			c.count("continued_scans", 1)
		}
		// The old format is refused.
		old := filepath.Join(s.dir, "old")
		writeFormat(old, formatMeta([]uint64{20161109, formatVersion - 1, 0}[r.Intn(3)], s.fs.BS, s.fs.FSID, ^uint64(0)), want)
		for _, a := range [][]string{{"ls", "--metadata", old}, reconArgs(s.fs.BS, s.fs.FSID, old, s.img)} {
			c.count("evaluations", 1)
			c.count("old_versions_refused", 1)
			if res := c.cli(runOpts{}, a...); res.Code == 0 {
				c.violated("%s: metadata of an older version is accepted: %v", what, res)
				return
			}
		}
		if i < 3 {
			c.sample(map[string]any{"image": s.fs.describe(), "records": len(want), "a key": fmt.Sprintf("%x", formatMetaKey)})
		}
	})
}
