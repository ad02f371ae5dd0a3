IX = 'pkg/btrfs/index/index_store.go'

bug('c01-dedupe-generations', 'C01', [(IX, '''	l := btrfs.ItemLen + len(data)
	tc := make([]byte, l)
''', '''	// Unchanged copies of an item need no record of their own.
	if old := ix.FindItem(h.Owner(), k); old != nil && string(old.Data()) ==
		string(data) {
		return nil
	}
	tc := make([]byte, btrfs.ItemLen+len(data))
''')], 'two leaves of one tree, of different generations, that both contain an item with the same key and the same bytes',
'The record of the second generation is missing in the index: the optimisation drops items whose bytes are equal to those of another generation.',
main='''
package main

import "strings"

func main() {
	f := image("img", 70<<20)
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755), inode(257, 10, 0100644)))
	put(f, 30<<20, leaf(5, 9, 0, bs, inode(256, 0, 040755), inode(257, 20, 0100644)))
	recon("img")
	r := run("dump-index")
	for _, gen := range []string{"@ 7", "@ 9"} {
		if n := strings.Count(r.out, gen); n != 2 {
			fail("%d records of generation %s instead of 2:\\n%s", n, gen, r.out)
		}
	}
}
''')

bug('c01-last-block', 'C01', [('cmd/recon.go', 'bs; off < devSize; off += bs {', 'bs; off+bs < devSize; off += bs {')],
'a leaf in the very last complete block of the image', 'The last block of the device is not scanned.',
main='''
package main

import "strings"

func main() {
	f := image("img", 70<<20+100) // With a trailing partial block
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	put(f, 70<<20-bs, leaf(5, 7, 0, bs, inode(257, 10, 0100644)))
	recon("img")
	if r := run("dump-index"); !strings.Contains(r.out, "(257 INODE_ITEM") {
		fail("the item of the last block is missing:\\n%s", r.out)
	}
}
''')

bug('c02-block-size-16', 'C02', [(IX, 'if m.BlockSize() != uint32(o.BlockSize) {', 'if uint16(m.BlockSize()) != uint16(o.BlockSize) {')],
'a second scan with a block size that is a multiple of 64 KiB larger than the recorded one', 'The scan with another block size is accepted and mixes its items into the index.',
main='''
package main

import "fmt"

func main() {
	f := image("img", 80<<20)
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	recon("img")
	before := run("dump-index").out
	r := run("--block-size", fmt.Sprint(bs+65536), "recon", "--id", fsid.String(), path("img"))
	if r.code == 0 {
		fail("a scan with another block size is accepted: %s", r.err)
	}
	if run("dump-index").out != before {
		fail("the refused scan changed the index")
	}
}
''')

bug('c03-no-sync', 'C03', [(IX, '''		ReadOnly: o.ReadOnly}); err != nil {''', '''		ReadOnly: o.ReadOnly,
		NoSync:   true}); err != nil {''')],
'a power loss after the scan', 'Nothing is synced to the disk, so that a successful scan is lost, or the metadata corrupted, when the power fails.',
main='''
package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
)

func main() {
	f := image("img", 70<<20)
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	cmd := exec.Command("strace", "-f", "-y", "-o", path("trace"), "-e", "trace=pwrite64,fdatasync,fsync,sync_file_range",
		bin, "--metadata", path("meta"), "--progress=false", "--block-size", fmt.Sprint(bs), "recon", "--id", fsid.String(), path("img"))
	if r := runCmd(cmd); r.code != 0 {
		fail("recon exits with %d: %s", r.code, r.err)
	}
	trace, err := os.ReadFile(path("trace"))
	must(err)
	written, synced := 0, 0
	for i, l := range strings.Split(string(trace), "\\n") {
		if strings.Contains(l, "pwrite64(") && strings.Contains(l, "/meta>") {
			written = i + 1
		}
		if strings.Contains(l, "sync(") {
			synced = i + 1
		}
	}
	if written == 0 {
		must(fmt.Errorf("no write seen"))
	}
	if synced < written {
		fail("the last write to the metadata is not synced")
	}
}
''')

bug('c03-commit-error-ignored', 'C03', [('cmd/recon.go', '''		cliutil.ReportError(ix.Commit())
		ix.Close()''', '''		ix.Close() // Also commits what is pending''')],
'a write error (full disk) while the last batch of a scan is committed', 'The scan exits successfully although its items were not written.',
main='''
package main

import (
	"fmt"
	"os/exec"
	"strings"
)

func main() {
	f := image("img", 70<<20)
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	recon("img")
	put(f, 21<<20, leaf(5, 8, 0, bs, inode(300, 0, 0100644)))
	cmd := exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=pwrite64", "-e", "inject=pwrite64:error=ENOSPC:when=3+",
		bin, "--metadata", path("meta"), "--progress=false", "--block-size", fmt.Sprint(bs), "recon", "--id", fsid.String(), path("img"))
	r := runCmd(cmd)
	if r.code == 0 && !strings.Contains(run("dump-index").out, "(300 INODE_ITEM") {
		fail("recon exits successfully, but its result is lost")
	}
}
''')

bug('c05-neighbour', 'C05', [(IX, '''		found[:keyV2Generation], search[:keyV2Generation]) {
		return found, v''', '''		found[:keyV2Offset], search[:keyV2Offset]) {
		return found, v''')], 'looking up a key that has no record while the next record has the same type and object id',
'The lookup returns the neighbour with another offset.',
main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs/index"

func main() {
	ix := openRW()
	insert(ix, 5, 7, extent(300, 8192, 1<<20, 0, 4096))
	ix.Close()
	ix = openRO()
	if i := ix.FindItem(5, index.KF(108, 300, 4096)); i != nil {
		fail("the item %v is found for a key that does not exist", i.Key())
	}
	if i := ix.FindItem(5, index.KF(108, 300, 8192)); i == nil {
		fail("the item is not found")
	}
}
''')

bug('c06-large-offsets', 'C06', [(IX, '''	return ix.Range(owner, KF(uint64(t), id), KL(uint64(t), id))''',
'''	return ix.Range(owner, KF(uint64(t), id), KF(uint64(t), id, 1<<32))''')],
'an object with items at offsets above 4 GiB (an extent of a large file, a chunk of a large device)', 'Extents of a file and chunks beyond 4 GiB are missing in the prepared ranges.',
main='''
package main

func main() {
	ix := openRW()
	insert(ix, 5, 7, extent(300, 0, 1<<20, 0, 4096), extent(300, 5<<30, 2<<20, 0, 4096))
	ix.Close()
	ix = openRO()
	n := 0
	for r, _ := ix.FileExtentItems(5, 300); r.HasNext(); r.Next() {
		n++
	}
	if n != 2 {
		fail("%d extents instead of 2", n)
	}
}
''')

bug('c06-end-exclusive', 'C06', [(IX, '''bytes.Compare(r.key, r.end) <= 0''', '''bytes.Compare(r.key, r.end) < 0''')],
'a record of the greatest possible generation under the last key of the range', 'The last key of a range is not yielded.',
main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs/index"

func main() {
	ix := openRW()
	insert(ix, 5, 7, inode(300, 1, 0100644))
	insert(ix, 5, ^uint64(0), inode(301, 1, 0100644))
	ix.Close()
	ix = openRO()
	n := 0
	for r, _ := ix.Range(5, index.KF(1, 300, 0), index.KF(1, 301, 0)); r.HasNext(); r.Next() {
		n++
	}
	if n != 2 {
		fail("%d items instead of 2", n)
	}
}
''')

bug('c07-inode-cache', 'C07', [(IX, '''	// Number of inserts''', '''	lastInode     [3]uint64
	lastInodeItem btrfs.InodeItem

	// Number of inserts'''), (IX, '''	if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
		return i.Data()
	}
	return nil''', '''	// Attributes are usually asked for several times in a row.
	if k := [3]uint64{owner, inode, ix.Generation}; k != ix.lastInode || !ix.db.IsReadOnly() {
		ix.lastInode, ix.lastInodeItem = k, nil
		if i := ix.FindItem(owner, KF(btrfs.InodeItemKey, inode)); i != nil {
			ix.lastInodeItem = i.Data()
		}
	}
	return ix.lastInodeItem''')], 'two threads that look up inodes of one index at the same time', 'A lookup returns the inode that another thread looks up, and the threads race.',
race=True, main='''
package main

import "sync"

func main() {
	ix := openRW()
	for i := uint64(0); i < 100; i++ {
		insert(ix, 5, 7, inode(300+i, i, 0100644))
	}
	ix.Close()
	ix = openRO()
	var wg sync.WaitGroup
	for t := uint64(0); t < 4; t++ {
		wg.Add(1)
		go func(t uint64) {
			defer wg.Done()
			for n := uint64(0); n < 20000; n++ {
				i := (n + t*25) % 100
				if ii := ix.FindInodeItem(5, 300+i); ii == nil || ii.Size() != i {
					fail("wrong inode")
				}
			}
		}(t)
	}
	wg.Wait()
}
''')

bug('c08-damaged-chunk', 'C08', [(IX, '''				// Invalid chunk, should always have at least one stripe
				continue''', '''				// Invalid chunk, should always have at least one stripe
				break''')], 'a damaged chunk record without stripes before others', 'All chunks behind the damaged one are unknown.',
main='''
package main

func main() {
	ix := openRW()
	bad := chunk(1<<20, 1<<20, 5<<20)
	bad.data[44] = 0
	insert(ix, 3, 7, bad, chunk(8<<20, 1<<20, 50<<20))
	ix.Close()
	ix = openRO()
	if dev, p := ix.Physical(8<<20 + 5); dev != 1 || p != 50<<20+5 {
		fail("device %d, address %d", dev, p)
	}
}
''')

bug('c08-last-stripe', 'C08', [(IX, '''			s := c.Stripe(0)
''', '''			s := c.Stripe(c.NumStripes() - 1)
''')], 'a chunk with more than one stripe (DUP)', 'Addresses translate through the last stripe instead of the first.',
main='''
package main

func main() {
	ix := openRW()
	insert(ix, 3, 7, chunk(1<<20, 1<<20, 5<<20), chunk(8<<20, 1<<20, 50<<20, 60<<20))
	ix.Close()
	ix = openRO()
	if dev, p := ix.Physical(8<<20 + 5); dev != 1 || p != 50<<20+5 {
		fail("device %d, address %d", dev, p)
	}
}
''')

bug('c09-wrong-hash-directory', 'C09', [(IX, '''		if !found {
			// Slow path''', '''		if !found && last {
			// Slow path''')], 'a directory in the middle of the path whose entry is recorded under a wrong name hash',
'The path is not found.', main='''
package main

func main() {
	ix := openRW()
	insert(ix, 5, 7, inode(256, 0, 040755), dirEntryHash(256, 257, 2, "d", 12345), inode(257, 0, 040755), dirEntryHash(257, 258, 1, "f", 999), inode(258, 0, 0100644))
	ix.Close()
	ix = openRO()
	if ix.FindDirItemForPath(5, "/d") == nil {
		fail("/d is not found")
	}
	if d := ix.FindDirItemForPath(5, "/d/f"); d == nil || d.Location().ObjectID != 258 {
		fail("/d/f is not found")
	}
}
''')

bug('c09-subvolume-inode', 'C09', [(IX, '''			owner = d.Location().ObjectID
			dirID = btrfs.FirstFreeObjectID
''', '''			owner = d.Location().ObjectID
''')], 'a path through a subvolume that is mounted below the top directory', 'The walk continues in the subvolume with the inode number of the directory that contains it.',
main='''
package main

func main() {
	ix := openRW()
	sub := func(dir uint64, name string) item {
		i := dirEntry(dir, 300, 2, name)
		i.data[8] = 132
		return i
	}
	insert(ix, 5, 7, dirEntry(256, 270, 2, "d"), inode(270, 0, 040755), sub(270, "s"), sub(256, "t"))
	insert(ix, 300, 7, inode(256, 0, 040755), dirEntry(256, 257, 1, "f"), inode(257, 0, 0100644))
	ix.Close()
	ix = openRO()
	if ix.FindDirItemForPath(5, "/t/f") == nil {
		fail("/t/f is not found")
	}
	if d := ix.FindDirItemForPath(5, "/d/s/f"); d == nil || d.Location().ObjectID != 257 {
		fail("/d/s/f is not found")
	}
}
''')

bug('c24-subtract', 'C24', [('pkg/btrfs/btrfs.go', '''	if a.Offset < b.Offset {
		return -1
	}
	if a.Offset > b.Offset {
		return 1
	}
	return 0
}''', '''	switch d := int64(a.Offset - b.Offset); {
	case d < 0:
		return -1
	case d > 0:
		return 1
	}
	return 0
}''')], 'offsets that are at least 2^63 apart', 'The comparison is wrong and not transitive.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs"

func main() {
	if r := btrfs.KeyCompare(key(256, 132, 1), key(256, 132, ^uint64(0))); r >= 0 {
		fail("the comparison yields %d", r)
	}
}
''')

bug('c27-zero-id', 'C27', [(IX, '''		if m.FSID() != o.FSID {''', '''		if m.FSID() != o.FSID && !o.FSID.IsAllFs() && !o.FSID.IsZero() {''')],
'opening an index for writing with the all-zero (or all-ones) filesystem id', 'The index opens although the filesystem id does not match.', main='''
package main

import (
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

func main() {
	openRW().Close()
	if ix, err := index.Open(path("meta"), 0644, &index.Options{BlockSize: bs, FSID: uuid.UUID{}, Generation: 1}); err == nil {
		ix.Close()
		fail("the index opens with another filesystem id")
	}
}
''')

bug('c28-raw-not-committed', 'C28', [(IX, '''	err := ix.tx.Commit()
''', '''	var err error
	if ix.txNum > 0 {
		err = ix.tx.Commit()
	} else { // Nothing was inserted
		err = ix.tx.Rollback()
	}
''')], 'a raw transaction that changes the database itself', 'The changes of raw transactions are rolled back.', main='''
package main

import (
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"go.etcd.io/bbolt"
)

func main() {
	ix := openRW()
	insert(ix, 5, 7, inode(256, 0, 040755))
	must(ix.RawTx(func(db *bbolt.DB, tx *bbolt.Tx, b *bbolt.Bucket) error {
		c := b.Cursor()
		k, v := c.First()
		nk := append([]byte{}, k...)
		nk[16]++ // The object id's last byte
		return b.Put(nk, append([]byte{}, v...))
	}))
	ix.Close()
	ix = openRO()
	if ix.FindItem(5, index.KF(1, 257)) == nil {
		fail("the raw transaction had no effect")
	}
	if ix.FindItem(5, index.KF(1, 256)) == nil {
		fail("the inserted item is missing")
	}
}
''')

bug('c31-runes', 'C31', [(IX, '''	return ^crc32.Update(^uint32(0xFFFFFFFE), castagnoliTable, []byte(name))''',
'''	crc := ^uint32(0xFFFFFFFE)
	for _, c := range name {
		crc = crc32.Update(crc, castagnoliTable, []byte(string(c)))
	}
	return ^crc''')], 'a name that is not valid UTF-8 (file names are arbitrary bytes)', 'The hash differs from the one BTRFS uses.', main='''
package main

import (
	"hash/crc32"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)

func main() {
	for _, name := range []string{"a", "f\\u00fcr", "f\\xfcr"} {
		if h, want := index.NameHash(name), ^crc32.Update(1, crc32.MakeTable(crc32.Castagnoli), []byte(name)); h != want {
			fail("hash of %q is %#x instead of %#x", name, h, want)
		}
	}
}
''')
