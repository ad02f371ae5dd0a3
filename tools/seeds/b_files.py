REC = 'cmd/recover.go'
LS = 'cmd/ls.go'

# A file system with one file of two extents, used by several demonstrations
FS = '''
// makeFS writes a leaf with the given items of the main tree to an image that
// has a chunk which maps logical addresses from 1 MiB on to physical ones from
// 30 MiB on, scans it and returns the image.
func makeFS(size int64, items ...item) *os.File {
	f := image("img", size)
	put(f, 20<<20, leaf(5, 7, 0, bs, append(items, inode(256, 0, 040755))...))
	put(f, 20<<20+bs, leaf(3, 7, 0, bs, chunk(1<<20, 1<<40, 30<<20)))
	recon("img")
	return f
}
'''

bug('c10-case-insensitive', 'C10', [(LS, '''	return a[i].Name() < a[j].Name()
''', '''	return strings.ToLower(a[i].Name()) < strings.ToLower(a[j].Name())
''')], 'names that differ in case', 'The listing is not sorted by name.', main='''
package main

import (
	"os"
	"strings"
)
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 1, "Zoo"), dirEntry(256, 258, 1, "apple"), inode(257, 0, 0100644), inode(258, 0, 0100644))
	out := run("ls").out
	if z, a := strings.Index(out, "Zoo"), strings.Index(out, "apple"); z < 0 || a < z {
		fail("wrong order:\\n%s", out)
	}
}
''')

bug('c10-mode-mask', 'C10', [(LS, '''3*((mode>>6)&0x7), 3*((mode>>3)&0x7)''', '''3*((mode>>6)&0x7), 3*((mode>>3)&0x3)''')],
'a file that its group may read', "The group's read permission is not listed.", main='''
package main

import (
	"os"
	"strings"
)
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, 0, 0100640))
	if out := run("ls").out; !strings.Contains(out, "-rw-r-----") {
		fail("wrong permissions:\\n%s", out)
	}
}
''')

bug('c11-no-trailing-hole', 'C11', [(REC, '''	if ii != nil {
		if err := f.Truncate(int64(fileSize)); err != nil {
			return fmt.Errorf("truncate failed: %w", err)
		}
''', '''	if ii != nil {
		// Cut off what the last extent has in excess
		if fi, err := f.Stat(); err == nil && uint64(fi.Size()) > fileSize {
			if err := f.Truncate(int64(fileSize)); err != nil {
				return fmt.Errorf("truncate failed: %w", err)
			}
		}
''')], 'a file that ends in a hole which no extent describes', 'The recovered file is shorter than the recorded size.', main='''
package main

import "os"
''' + FS + '''
func main() {
	f := makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, 10000, 0100644), extent(257, 0, 2<<20, 0, 4096))
	put(f, 31<<20, []byte("data"))
	if r := run("recover", path("img"), path("out")); r.code != 0 {
		fail("%v", r)
	}
	if fi, err := os.Stat(path("out/f")); err != nil || fi.Size() != 10000 {
		fail("the recovered file is wrong: %v %v", fi, err)
	}
}
''')

bug('c11-large-extent', 'C11', [(REC, '''f.WriteAt(buf[:n], int64(fileOffset+bytesCopied)); wErr''', '''f.WriteAt(buf[:n], int64(fileOffset|bytesCopied)); wErr''')],
'an extent of more than 1 MiB at a file offset that is no multiple of the next power of two', 'Parts of the file are written to the wrong place.', main='''
package main

import (
	"bytes"
	"os"
)
''' + FS + '''
func main() {
	f := makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, 5<<20, 0100644), extent(257, 1<<20, 2<<20, 0, 3<<20))
	want := make([]byte, 5<<20)
	for i := 0; i < 3<<20; i++ {
		want[1<<20+i] = byte(i>>12) + 1
	}
	put(f, 31<<20, want[1<<20:4<<20])
	if r := run("recover", path("img"), path("out")); r.code != 0 {
		fail("%v", r)
	}
	if b, err := os.ReadFile(path("out/f")); err != nil || !bytes.Equal(b, want) {
		fail("the recovered file is wrong: %v", err)
	}
}
''')

bug('c12-trimmed-name', 'C12', [(REC, '''		targetPath := filepath.Join(currentDest, name)
''', '''		// Some tools record the names with a terminating zero
		targetPath := filepath.Join(currentDest, strings.TrimRight(name, "\\x00"))
''')], 'a directory entry named ".." followed by a zero byte', 'What is below that entry is recovered outside the destination.', main='''
package main

import "os"
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 2, "..\\x00"), inode(257, 0, 040755), dirEntry(257, 258, 1, "f"), inode(258, 4, 0100644), inline(258, "data"))
	run("recover", path("img"), path("a/b/out"))
	if _, err := os.Stat(path("a/b/f")); err == nil {
		fail("a file is recovered outside the destination")
	}
}
''')

bug('c13-dangling-link', 'C13', [(REC, '''func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
	if _, err := os.Lstat(targetPath)''', '''func recoverSymlink(ix *index.Index, devFile *os.File, owner, inode uint64, targetPath string, options recoverFilesOptions) error {
	if _, err := os.Stat(targetPath)''')], 'recovering a symbolic link with --clobber where a dangling one of that name exists', 'The old link is kept.', main='''
package main

import "os"
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 258, 7, "l"), inode(258, 6, 0120777), inline(258, "target"))
	must(os.Mkdir(path("out"), 0755))
	must(os.Symlink("nowhere", path("out/l")))
	run("recover", path("img"), path("out"))
	if l, _ := os.Readlink(path("out/l")); l != "nowhere" {
		fail("the link was changed without --clobber: %q", l)
	}
	run("recover", "--clobber", path("img"), path("out"))
	if l, _ := os.Readlink(path("out/l")); l != "target" {
		fail("the link is not recovered: %q", l)
	}
}
''')

bug('c14-early-end', 'C14', [(REC, '''							return fmt.Errorf("unexpected EOF reading device/image: %w", err)
''', '''							break // Keep what there is
''')], "an image that ends in the middle of a file's data", 'The file is recovered with zeros and without a warning.', main='''
package main

import (
	"os"
	"strings"
)
''' + FS + '''
func main() {
	f := makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, 8192, 0100644), extent(257, 0, 41<<20-4096, 0, 8192))
	put(f, 70<<20-4096, []byte("data"))
	r := run("recover", path("img"), path("out"))
	if !strings.Contains(r.err, "out/f") {
		fail("no warning about the file: %q", r.err)
	}
}
''')

bug('c19-half-zero', 'C19', [('pkg/uuid/uuid.go', '''	return u == uuidAllZero
''', '''	// Faster than comparing all bytes
	return binary.LittleEndian.Uint64(u[:]) == 0 ||
		binary.LittleEndian.Uint64(u[8:]) == 0 && u == uuidAllZero
'''), ('pkg/uuid/uuid.go', '''	"encoding/hex"
''', '''	"encoding/binary"
	"encoding/hex"
''')], 'a filesystem id whose first half is zero', 'Blocks of this filesystem are ignored.', main='''
package main

import (
	"fmt"
	"strings"

	"blichmann.eu/code/btrfscue/pkg/uuid"
)

func main() {
	f := image("img", 70<<20)
	id := uuid.UUID{15: 1}
	for i := int64(0); i < 5; i++ {
		b := leaf(5, 7, 0, bs, inode(256, 0, 040755))
		copy(b[32:], id[:])
		put(f, 1<<16+i*bs, b)
	}
	if r := run("identify", "-p=false", "--block-size", fmt.Sprint(bs), path("img")); !strings.Contains(r.out, id.String()) {
		fail("%v", r)
	}
}
''')

bug('c20-partial-block', 'C20', [('internal/identify/identify.go', '''	numBlocks := int64(devSize / blockSize)
''', '''	numBlocks := int64((devSize + blockSize - 1) / blockSize)
''')], 'a device whose size is no multiple of the block size', 'The partial block at the end is sampled.', test=('internal/identify', '''
package identify

import "testing"

func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		size := uint64(66 << 20)
		for _, o := range MakeSampleOffsets(size+5, 65536, 1100) {
			if o+65536 > size+5 {
				t.Fatal("block behind the end", o)
			}
		}
	}
}
'''))

bug('c20-int32', 'C20', [('internal/identify/identify.go', '''		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
''', '''		sampleSet[uint64(uint32(rand.Int63n(numBlocks)))*blockSize] = true
''')], 'a device of more than 2^32 blocks', 'Only a part at the beginning of the device is sampled.', test=('internal/identify', '''
package identify

import "testing"

func TestZZDemo(t *testing.T) {
	const size = 1 << 46
	late := 0
	for _, o := range MakeSampleOffsets(size, 4096, 2000) {
		if o > size/2 {
			late++
		}
	}
	if late < 500 {
		t.Errorf("only %d samples in the second half", late)
	}
}
'''))

bug('c21-no-clamp', 'C21', [('pkg/btrfs/leaf.go', '''	if e > leafLen {
		e = leafLen
	}
''', '''	if e > leafLen && e-leafLen < leafLen {
		e = leafLen
	}
''')], 'a leaf with a damaged item whose recorded size is larger than two blocks', 'The scan crashes.', main='''
package main

func main() {
	f := image("img", 70<<20)
	b := leaf(5, 7, 0, bs, inode(256, 0, 040755))
	b[101+21+2] = 5 // Item size
	put(f, 20<<20, b)
	recon("img")
}
''')

bug('c22-drop-level', 'C22', [('pkg/btrfs/btrfs.go', '''	rootItemDropLevel    = rootItemDropProgress + 17
	rootItemLevel        = rootItemDropLevel + 1
''', '''	rootItemLevel        = rootItemDropProgress + 17
	rootItemDropLevel    = rootItemLevel + 1
''')], 'a root item of a tree with more than one level, or that is being dropped', 'The level fields of root items are swapped.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs"

func main() {
	b := make([]byte, btrfs.RootItemLen)
	b[160+8*7+4+17], b[160+8*7+4+18] = 3, 5
	if r := btrfs.RootItem(b); r.DropLevel() != 3 || r.Level() != 5 {
		fail("drop level %d, level %d", r.DropLevel(), r.Level())
	}
}
''')

bug('c22-time-32-bit', 'C22', [('pkg/btrfs/slice.go', '''	return time.Unix(int64(SliceUint64LE(b)), int64(SliceUint32LE(b[8:])))
''', '''	return time.Unix(int64(SliceUint32LE(b)), int64(SliceUint32LE(b[8:])))
''')], 'times before 1970 or after 2106', 'Only the lower half of the seconds is used.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs"

func main() {
	b := inode(257, 0, 0).data
	copy(b[160-48:], le(int64(-5), uint32(7)))
	if at := btrfs.InodeItem(b).Atime(); at.Unix() != -5 || at.Nanosecond() != 7 {
		fail("time is %v", at)
	}
}
''')

bug('c23-eight-dashes', 'C23', [('pkg/uuid/uuid.go', '''strings.Replace(value, "-", "", -1)''', '''strings.Replace(value, "-", "", 8)''')],
'a text with more than eight dashes', 'It is not accepted.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/uuid"

func main() {
	if u, err := uuid.New("01-02-03-04-05-06-07-08-09-0a-0b-0c-0d-0e-0f-10"); err != nil || u != fsid {
		fail("%v %v", u, err)
	}
}
''')

bug('c23-rejected-text', 'C23', [('pkg/uuid/uuid.go', '''	if len(b) != UUIDSize {
		return fmt.Errorf("expected %d hex characters plus optional dashes",
			UUIDSize*2)
	}
	copy(u[:], b)
	return nil
''', '''	if copy(u[:], b) != UUIDSize || len(b) != UUIDSize {
		return fmt.Errorf("expected %d hex characters plus optional dashes",
			UUIDSize*2)
	}
	return nil
''')], 'parsing a text with a wrong number of digits into an id that has a value', 'The rejected text changes the value.', main='''
package main

func main() {
	u := fsid
	if u.Set("ffff") == nil || u != fsid {
		fail("%v", u)
	}
}
''')

bug('c25-eof-with-data', 'C25', [('pkg/ioutil/ioutil.go', '''		return nil // Never return EOF if read succeeded
''', '''		return err
''')], 'a reader that returns io.EOF along with the last complete block', 'The complete block is reported as an error.', main='''
package main

import (
	"io"

	"blichmann.eu/code/btrfscue/pkg/ioutil"
)

type reader struct{}

func (reader) ReadAt(p []byte, off int64) (int, error) { return len(p), io.EOF }

func main() {
	if err := ioutil.ReadBlockAt(reader{}, make([]byte, 10), 0); err != nil {
		fail("%v", err)
	}
}
''')

bug('c26-narrow-count', 'C26', [('pkg/coding/entropy.go', '''	hist := make(map[byte]uint)
''', '''	hist := make(map[byte]uint16)
''')], 'a byte that occurs more than 65535 times', 'Its count wraps around.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/coding"

func main() {
	if e := coding.ShannonEntropy(make([]byte, 70000)); e != 0 {
		fail("%v", e)
	}
}
''')

bug('c29-same-key', 'C29', [('cmd/dump_index.go', '''		k := r.Key()
''', '''		k := r.Key()
		if k == lastKey && r.Generation() == lastGen {
			continue // Records are sorted, so this is the same one
		}
'''), ('cmd/dump_index.go', '''		_ = v
''', '''		lastKey, lastGen, _ = k, r.Generation(), v
'''), ('cmd/dump_index.go', '''	first, last := true, uint64(0)
''', '''	first, last := true, uint64(0)
	lastKey, lastGen := btrfs.Key{}, uint64(0)
'''), ('cmd/dump_index.go', '''	cliutil "blichmann''', '''	"blichmann.eu/code/btrfscue/pkg/btrfs"
	cliutil "blichmann''')], 'two consecutive records of different owners with equal keys and generations', 'The second one is not printed.', main='''
package main

import "strings"

func main() {
	ix := openRW()
	insert(ix, 5, 7, inode(256, 0, 040755))
	insert(ix, 300, 7, inode(256, 0, 040755))
	ix.Close()
	if out := run("dump-index").out; strings.Count(out, "INODE_ITEM") != 2 {
		fail("%s", out)
	}
}
''')

bug('c30-metadata-first', 'C30', [('cmd/recon.go', '''	bs := uint64(app.Global.BlockSize)

	devSize, err := btrfs.CheckDeviceSize(f, bs)
	cliutil.ReportError(err)
	devSize = devSize - (devSize % bs)

	buf := make([]byte, bs)

	ix, err''', '''	bs := uint64(app.Global.BlockSize)

	ix, err'''), ('cmd/recon.go', '''		ix.Close()
	}()

''', '''		ix.Close()
	}()

	devSize, err := btrfs.CheckDeviceSize(f, bs)
	cliutil.ReportError(err)
	devSize = devSize - (devSize % bs)

	buf := make([]byte, bs)

''')], 'scanning an image that is too small', 'The refused scan creates a metadata file.', main='''
package main

import (
	"fmt"
	"os"
)

func main() {
	image("img", 1<<20)
	if r := run("--block-size", fmt.Sprint(bs), "recon", "--id", fsid.String(), path("img")); r.code == 0 {
		fail("the scan is not refused")
	}
	if _, err := os.Lstat(path("meta")); err == nil {
		fail("the refused scan created the metadata file")
	}
}
''')

bug('c30-identify-creates', 'C30', [('internal/identify/identify.go', '''	dev, err := os.Open(filename)
''', '''	// Exclusive access, no other program should change the image
	dev, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
''')], 'identifying an image that does not exist', 'An empty file is created in its place.', main='''
package main

import "os"

func main() {
	if r := run("identify", path("img")); r.code == 0 {
		fail("not refused")
	}
	if _, err := os.Lstat(path("img")); err == nil {
		fail("the file was created")
	}
}
''')

bug('c32-unread-cap', 'C32', [('pkg/btrfs/parse_buffer.go', '''	return len(b.buf) - b.offset
''', '''	return cap(b.buf[b.offset:])
''')], 'a buffer that is part of a larger one', 'More bytes are reported to remain than there are.', main='''
package main

import "blichmann.eu/code/btrfscue/pkg/btrfs"

func main() {
	b := btrfs.NewParseBuffer(make([]byte, 100)[:10])
	b.NextUint32()
	if n := b.Unread(); n != 6 {
		fail("%d bytes remain", n)
	}
}
''')
