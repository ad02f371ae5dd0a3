IX = 'pkg/btrfs/index/index_store.go'
REC = 'cmd/recover.go'
NODE = 'internal/rescuefs/nodefs.go'

bug('c02-half-id', 'C02', [(IX, '''		if m.FSID() != o.FSID {''', '''		// The first half tells filesystems apart well enough
		if want, have := o.FSID.String()[:18], m.FSID().String()[:18]; want != have {''')],
'scanning for a filesystem id that has its first half in common with the recorded one (as ids set by hand often have)', 'The scan is accepted and mixes the items of both filesystems.', main='''
package main

import "fmt"

func main() {
	f := image("img", 80<<20)
	other := fsid
	other[15]++
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	b := leaf(5, 9, 0, bs, inode(257, 0, 040755))
	copy(b[32:], other[:])
	put(f, 30<<20, b)
	recon("img")
	before := run("dump-index").out
	r := run("--block-size", fmt.Sprint(bs), "recon", "--id", other.String(), path("img"))
	if r.code == 0 {
		fail("a scan for another id is accepted: %s", r.err)
	}
	if run("dump-index").out != before {
		fail("the refused scan changed the index")
	}
}
''')

bug('c05-view-zero', 'C05', [(IX, '''	search := newIndexKey(owner, k, generation)
''', '''	if generation == 0 { // Not set
		generation = ^uint64(0)
	}
	search := newIndexKey(owner, k, generation+0)
''')], 'a view at generation 0, while the object has several versions', 'The newest version is returned instead of the oldest one.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs/index"

func main() {
	ix := openRW()
	insert(ix, 5, 7, inode(256, 1, 040755))
	insert(ix, 5, 9, inode(256, 2, 040755))
	ix.Close()
	ix = openRO()
	ix.Generation = 0
	if i := ix.FindItem(5, index.KF(1, 256)); i == nil || ix.FindInodeItem(5, 256).Size() != 1 {
		fail("not the oldest version")
	}
}
''')

bug('c12-link-times', 'C12', [(REC, '''	return os.Symlink(target, targetPath)
''', '''	if err := os.Symlink(target, targetPath); err != nil {
		return err
	}
	if ii := ix.FindInodeItem(owner, inode); ii != nil {
		// Not all filesystems support this
		_ = os.Chtimes(targetPath, ii.Atime(), ii.Mtime())
	}
	return nil
''')], 'a recovered symbolic link whose target exists outside the destination', 'The times of the file that the link leads to are changed.', main='''
package main

import (
	"os"
	"time"
)
''' + FS + '''
func main() {
	must(os.WriteFile(path("outside"), nil, 0644))
	old := time.Unix(1234567890, 0)
	must(os.Chtimes(path("outside"), old, old))
	makeFS(70<<20, dirEntry(256, 258, 7, "l"), inode(258, uint64(len(path("outside"))), 0120777), inline(258, path("outside")))
	run("recover", path("img"), path("out"))
	if fi, err := os.Stat(path("outside")); err != nil || !fi.ModTime().Equal(old) {
		fail("the file outside changed: %v %v", fi.ModTime(), err)
	}
	if l, err := os.Readlink(path("out/l")); l != path("outside") {
		fail("%q %v", l, err)
	}
}
''')

bug('c13-file-for-link', 'C13', [(REC, '''	if _, err := os.Lstat(targetPath); err == nil {
		if !options.clobber {
			cliutil.Verbosef("symlink %s already''', '''	if fi, err := os.Lstat(targetPath); err == nil {
		if !options.clobber {
			cliutil.Verbosef("symlink %s already'''), (REC, '''		_ = os.Remove(targetPath)
''', '''		if fi.Mode()&os.ModeSymlink != 0 {
			_ = os.Remove(targetPath)
		}
''')], 'recovering with --clobber while a regular file has the name of a symbolic link', 'The link is not recovered, the file stays.', main='''
package main

import "os"
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 258, 7, "l"), inode(258, 6, 0120777), inline(258, "target"))
	must(os.Mkdir(path("out"), 0755))
	must(os.WriteFile(path("out/l"), []byte("file"), 0644))
	run("recover", path("img"), path("out"))
	if b, _ := os.ReadFile(path("out/l")); string(b) != "file" {
		fail("the file was changed without --clobber: %q", b)
	}
	run("recover", "--clobber", path("img"), path("out"))
	if l, _ := os.Readlink(path("out/l")); l != "target" {
		fail("the link is not recovered: %q", l)
	}
}
''')

bug('c14-link-cut', 'C14', [(REC, '''			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil {
				target = string(buf)
''', '''			// Short targets are padded
			if _, err := devFile.ReadAt(buf, int64(srcOffset)); err == nil || err == io.EOF {
				target = strings.TrimRight(string(buf), "\\x00")
''')], 'a symbolic link whose target is in an extent of its own that the end of the image cuts', 'A link with a part of the target is recovered without a warning.', main='''
package main

import (
	"os"
	"strings"
)
''' + FS + '''
func main() {
	f := makeFS(70<<20+100, dirEntry(256, 257, 7, "l"), inode(257, 200, 0120777), extent(257, 0, 41<<20, 0, 4096))
	put(f, 70<<20, []byte(strings.Repeat("t", 100)))
	r := run("recover", path("img"), path("out"))
	if l, err := os.Readlink(path("out/l")); err == nil {
		fail("a link to %q is recovered", l)
	}
	if !strings.Contains(r.err, "out/l") {
		fail("no warning about the link: %q", r.err)
	}
}
''')

bug('c17-listing-buffer', 'C17', [(NODE, '''	dirItems map[string]btrfs.DirItem
}

''', '''	dirItems map[string]btrfs.DirItem
	listing  []fuse.DirEntry // Buffer for listings
}

'''), (NODE, '''	var s []fuse.DirEntry
''', '''	s := n.listing[:0]
'''), (NODE, '''Mode: dirEntryMode(di)})
	}
	return s, fuse.OK
''', '''Mode: dirEntryMode(di)})
	}
	n.listing = s
	return s, fuse.OK
''')], 'two processes that list the same directory at the same time', 'The threads share a buffer: names occur twice or not at all.', race=True, test=('internal/rescuefs', MNT + '''
func TestZZDemo(t *testing.T) {
	r := makeFS(nil, dirEntry(256, 257, 1, "f"), inode(257, 5, 0100644), dirEntry(256, 258, 1, "g"), inode(258, 5, 0100644))
	for n := 0; n < 200; n++ {
		res := make(chan int)
		for i := 0; i < 4; i++ {
			go func() {
				l, _ := r.Node().OpenDir(ctx)
				res <- len(l)
			}()
		}
		for i := 0; i < 4; i++ {
			if n := <-res; n != 2 {
				t.Error(n)
			}
		}
	}
}
'''))

bug('c19-count-16', 'C19', [('internal/identify/collector.go', '''	Count        uint
''', '''	Count        uint16
'''), ('internal/identify/collector.go', '''		if entry.Count >= minOccurrence {''', '''		if uint(entry.Count) >= minOccurrence {'''), ('internal/identify/collector.go', '''			occ = append(occ, FSEntry{uuid, entry.Count,''', '''			occ = append(occ, FSEntry{uuid, uint(entry.Count),''')],
'an id that occurs in more than 65535 of the sampled blocks', 'Its count wraps around, it may not be reported at all.', main='''
package main

import "strings"

func main() {
	f := image("img", 70<<20)
	b := leaf(5, 7, 0, bs, inode(256, 0, 040755))[:512]
	for o := int64(0); o < 512*(1<<16+100); o += 512 {
		put(f, o, b)
	}
	r := run("identify", "-m", "--block-size", "512", "--sample-fraction", "1", "--max-blocks", "1000000", path("img"))
	if !strings.Contains(r.out, "65636") {
		fail("%q %q", r.out, r.err)
	}
}
''')

bug('c26-first-part', 'C26', [('pkg/coding/entropy.go', '''	for _, v := range b {
		hist[v]++
	}
''', '''	if max := 1 << 16; len(b) > max {
		b = b[:max] // Enough to tell
	}
	for _, v := range b {
		hist[v]++
	}
'''), ('pkg/coding/entropy.go', '''	l := float64(len(b))
''', '''	l := float64(len(b) - 0)
''')], 'a string of more than 64 KiB whose parts differ', 'Only its first part is scored.', main='''
package main

import (
	"math"

	"blichmann.eu/code/btrfscue/pkg/coding"
)

func main() {
	b := make([]byte, 1<<17)
	for i := 1 << 16; i < len(b); i++ {
		b[i] = 1
	}
	if e := coding.ShannonEntropy(b); math.Abs(e-1) > 1e-9 {
		fail("%v", e)
	}
}
''')

bug('c27-newer-upgrade', 'C27', [(IX, '''		if m.Version() > MetadataVersion {
''', '''		if !o.AllowOldVersion && m.Version() > MetadataVersion {
''')], 'opening an index of a newer format for an upgrade', 'It opens, and would be "upgraded" from a format that is unknown.', main='''
package main

import (
	"encoding/binary"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"go.etcd.io/bbolt"
)

func main() {
	ix := openRW()
	must(ix.RawTx(func(db *bbolt.DB, tx *bbolt.Tx, b *bbolt.Bucket) error {
		m := append([]byte{}, b.Get(index.MetadataKey)...)
		binary.LittleEndian.PutUint64(m, index.MetadataVersion+1)
		return b.Put(index.MetadataKey, m)
	}))
	ix.Close()
	if ix, err := index.Open(path("meta"), 0644, &index.Options{BlockSize: bs, FSID: fsid, AllowOldVersion: true}); err == nil {
		ix.Close()
		fail("the index opens")
	}
}
''')

bug('c28-no-commit-on-close', 'C28', [(IX, '''	if !ix.db.IsReadOnly() {
		ix.Commit()
	} else {
''', '''	if !ix.db.IsReadOnly() && ix.txNum&0xff != 0 {
		ix.Commit()
	} else if ix.tx != nil {
''')], 'closing an index after a multiple of 256 insertions since the last commit', 'They are rolled back.', main='''
package main

func main() {
	ix := openRW()
	for i := uint64(0); i < 512; i++ {
		insert(ix, 5, 7, inode(256+i, i, 0100644))
	}
	ix.Close()
	ix = openRO()
	for i := uint64(0); i < 512; i++ {
		if ix.FindInodeItem(5, 256+i) == nil {
			fail("inode %d is not there", 256+i)
		}
	}
}
''')

bug('c32-set-end', 'C32', [('pkg/btrfs/parse_buffer.go', '''	b.offset = offset
''', '''	if offset >= 0 && offset < len(b.buf) {
		b.offset = offset
	}
''')], 'setting the position to the end of the buffer', 'The position stays where it was, and what was read before is read again.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs"

func main() {
	b := btrfs.NewParseBuffer(make([]byte, 10))
	b.NextUint32()
	b.SetOffset(10)
	if o, n := b.Offset(), b.Unread(); o != 10 || n != 0 {
		fail("position %d, %d remain", o, n)
	}
}
''')

bug('c07-lazy-view', 'C07', [(IX, '''	ix.bucket = ix.tx.Bucket([]byte("index"))
	return err
''', '''	ix.bucket = ix.tx.Bucket([]byte("index"))
	ix.inodes = map[[2]uint64]btrfs.InodeItem{}
	return err
'''), (IX, '''	txNum      int
''', '''	txNum      int
	inodes     map[[2]uint64]btrfs.InodeItem // Of files that are missing
'''), (IX, '''func (ix *Index) FindInodeItem(owner uint64, inode uint64) btrfs.InodeItem {
''', '''func (ix *Index) FindInodeItem(owner uint64, inode uint64) btrfs.InodeItem {
	if _, missing := ix.inodes[[2]uint64{owner, inode}]; missing && ix.db.IsReadOnly() {
		return nil
	}
'''), (IX, '''	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
		return i.Data()
	}
	return nil
''', '''	i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode))
	if i == nil {
		ix.inodes[[2]uint64{owner, inode}] = nil
		return nil
	}
	return i.Data()
''')], 'two threads that look up inodes that have no record at the same moment', 'They race for the map of known missing inodes: the runtime ends the program.', race=True, main='''
package main

import "sync"

func main() {
	ix := openRW()
	insert(ix, 5, 7, inode(256, 0, 040755))
	ix.Close()
	ix = openRO()
	var wg sync.WaitGroup
	for i := uint64(0); i < 8; i++ {
		wg.Add(1)
		go func(i uint64) {
			defer wg.Done()
			for j := uint64(0); j < 1000; j++ {
				if ix.FindInodeItem(5, 1000*i+j+300) != nil {
					fail("found")
				}
			}
		}(i)
	}
	wg.Wait()
}
''')

bug('c24-narrow-type', 'C24', [('pkg/btrfs/index/key_format.go', '''	return newIndexKey(ik.Owner(), ik.Key(), ik.Generation())
''', '''	k := ik.Key()
	k.Offset = uint64(uint32(k.Offset)) | k.Offset>>32<<32&(1<<63-1)
	return newIndexKey(ik.Owner(), k, ik.Generation())
''')], 'converting a key of the old format whose offset has its highest bit set (as those of root and checksum items do)', 'The converted key has another offset.', main='''
package main

import (
	"encoding/binary"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

func main() {
	b := make([]byte, 33)
	for i := range b {
		b[i] = 0x81 + byte(i)
	}
	if o := binary.BigEndian.Uint64(index.NewIndexKeyFromV1(b)[17:]); o != binary.BigEndian.Uint64(b[17:]) {
		fail("offset %#x", o)
	}
}
''')

bug('c21-type-table', 'C21', [('cmd/ls.go', """	switch t {
	case btrfs.FtRegFile:
		return "-"
	case btrfs.FtBlkdev:
		return "b"
	case btrfs.FtChrdev:
		return "c"
	case btrfs.FtDir:
		return "d"
	case btrfs.FtSymlink:
		return "l"
	case btrfs.FtFifo:
		return "p"
	case btrfs.FtSock:
		return "s"
	default:
		return "?"
	}
""", """	const types = "?-dcbpsl?"
	if t > btrfs.FtSymlink+2 {
		return "?"
	}
	return types[t : t+1]
""")], 'listing a directory with an entry whose type is 9, one more than the last that is known', 'ls crashes.', main=r"""
package main

import (
	"os"
	"strings"
)
""" + FS + r"""
func main() {
	makeFS(70<<20, dirEntry(256, 257, 9, "f"), inode(257, 5, 0100644), dirEntry(256, 258, 1, "g"), inode(258, 5, 0100644))
	r := run("--metadata", path("meta"), "ls")
	if r.code > 1 || !strings.Contains(r.out, "g\n") {
		fail("%d %q %q", r.code, r.out, r.err)
	}
}
""")
