NODE, FIL = 'internal/rescuefs/nodefs.go', 'internal/rescuefs/files.go'
IX = 'pkg/btrfs/index/index_store.go'

# Serves a metadata file without a kernel
MNT = r'''
package rescuefs

import (
	"os"
	"testing"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"github.com/hanwen/go-fuse/v2/fuse"
	"github.com/hanwen/go-fuse/v2/fuse/nodefs"
)

var ctx = &fuse.Context{}

// makeFS serves a file system with the given items; logical addresses from
// 1 MiB on are in dev from 0 on.
func makeFS(dev *os.File, items ...item) *nodefs.Inode {
	ix := openRW()
	insert(ix, 3, 7, chunk(1<<20, 1<<30, 0))
	insert(ix, 5, 7, append(items, inode(256, 0, 040755))...)
	ix.Close()
	ix, err := index.OpenReadOnly(path("meta"))
	must(err)
	fs := New(path("meta"), ix, dev)
	c := nodefs.NewFileSystemConnector(fs.root, nodefs.NewOptions())
	if c == nil {
		must(os.ErrInvalid)
	}
	fs.OnMount(c)
	return fs.root.Inode().GetChild("rescue")
}

func look(t *testing.T, dir *nodefs.Inode, name string) nodefs.Node {
	n, code := dir.Node().Lookup(&fuse.Attr{}, name, ctx)
	if code != fuse.OK {
		t.Fatal(name, code)
	}
	return n.Node()
}

func readAt(t *testing.T, f nodefs.File, off int64, n int) string {
	r, code := f.Read(make([]byte, n), off)
	if code != fuse.OK {
		t.Fatal(code)
	}
	b, _ := r.Bytes(make([]byte, n))
	return string(b)
}
'''

bug('c04-writable-readers', 'C04', [(IX, '''	return openIndex(path, 0644 /* Mode */, nil)
''', '''	return openIndex(path, 0644 /* Mode */, &Options{AllowOldVersion: true,
		Generation: ^uint64(0)})
''')], 'any of the reading commands', 'Reading commands open the metadata for writing and add a commit to it, and cannot read it where it is write-protected.', main='''
package main

import (
	"bytes"
	"os"
)

func main() {
	ix := openRW()
	insert(ix, 5, 7, inode(256, 0, 040755))
	ix.Close()
	a, err := os.ReadFile(path("meta"))
	must(err)
	if r := run("dump-index"); r.code != 0 {
		fail("%v", r)
	}
	if b, err := os.ReadFile(path("meta")); err != nil || !bytes.Equal(a, b) {
		fail("the metadata was changed")
	}
}
''')

bug('c04-image-times', 'C04', [('cmd/recon.go', '''	defer f.Close()

	bs := uint64(app.Global.BlockSize)
''', '''	// Scanning is no use of the image, keep its access time
	var st syscall.Stat_t
	cliutil.ReportError(syscall.Fstat(int(f.Fd()), &st))
	defer func() {
		_ = syscall.Futimes(int(f.Fd()), []syscall.Timeval{
			syscall.NsecToTimeval(st.Atim.Nano()),
			syscall.NsecToTimeval(st.Mtim.Nano()),
		})
		f.Close()
	}()

	bs := uint64(app.Global.BlockSize)
'''), ('cmd/recon.go', '''	"io"
''', '''	"io"
	"syscall"
''')], 'an image whose modification time is no whole number of microseconds', 'Scanning changes the modification time of the image.', main='''
package main

import (
	"os"
	"time"
)

func main() {
	f := image("img", 70<<20)
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	at := time.Unix(1500000000, 123456789)
	must(os.Chtimes(path("img"), at, at))
	recon("img")
	if fi, err := os.Stat(path("img")); err != nil || !fi.ModTime().Equal(at) {
		fail("the modification time is now %v", fi.ModTime())
	}
}
''')

bug('c15-link-space', 'C15', [(NODE, '''		return []byte(e.Data()), fuse.OK
	}
	return nil, fuse.ENODATA
''', '''		// The recorded target may be padded
		return []byte(strings.TrimRight(e.Data(), " \\x00")), fuse.OK
	}
	return nil, fuse.ENODATA
''')], 'a symbolic link whose target ends with a space', 'The link leads elsewhere.', test=('internal/rescuefs', MNT + '''
func TestZZDemo(t *testing.T) {
	r := makeFS(nil, dirEntry(256, 257, 7, "l"), inode(257, 5, 0120777), inline(257, "dir  "))
	if s, code := look(t, r, "l").Readlink(ctx); code != fuse.OK || string(s) != "dir  " {
		t.Errorf("%q %v", s, code)
	}
}
'''))

bug('c15-empty-xattr', 'C15', [(NODE, '''			return []byte(x.Data()), fuse.OK
''', '''			if data = []byte(x.Data()); len(data) > 0 {
				return data, fuse.OK
			}
''')], 'an extended attribute with an empty value', 'It is listed, but reading it fails.', test=('internal/rescuefs', MNT + '''
func TestZZDemo(t *testing.T) {
	r := makeFS(nil, dirEntry(256, 257, 1, "f"), inode(257, 5, 0100644), xattr(257, "user.a", ""))
	if b, code := look(t, r, "f").GetXAttr("user.a", ctx); code != fuse.OK || len(b) != 0 {
		t.Errorf("%q %v", b, code)
	}
}
'''))

bug('c16-hole-before', 'C16', [(FIL, '''		readStart := off
		if readStart < extentStart {
			readStart = extentStart
		}
''', '''		readStart := off
		if readStart < extentStart {
			break // Starts in a hole
		}
''')], 'a read that starts in a hole without an extent of its own and reaches the next extent', 'The data of the extent reads as zeros.', test=('internal/rescuefs', MNT + '''
func TestZZDemo(t *testing.T) {
	f, err := os.Create(path("img"))
	must(err)
	f.WriteString("data")
	r := makeFS(f, dirEntry(256, 257, 1, "f"), inode(257, 8196, 0100644), extent(257, 8192, 1<<20, 0, 4096))
	h, _ := look(t, r, "f").Open(0, ctx)
	if s := readAt(t, h, 8190, 100); s != "\\x00\\x00data" {
		t.Errorf("%q", s)
	}
}
'''))

bug('c16-last-extent', 'C16', [(FIL, '''		if readEnd <= readStart {
			continue
		}
''', '''		if readEnd <= readStart+1 && len(f.extentMap) > 1 {
			continue
		}
''')], 'a read that covers only one byte of an extent', 'That byte reads as zero.', test=('internal/rescuefs', MNT + '''
func TestZZDemo(t *testing.T) {
	f, err := os.Create(path("img"))
	must(err)
	must(f.Truncate(10000))
	f.WriteAt([]byte("x"), 4095)
	f.WriteAt([]byte("y"), 4096)
	r := makeFS(f, dirEntry(256, 257, 1, "f"), inode(257, 8192, 0100644), extent(257, 0, 1<<20, 0, 4096), extent(257, 4096, 1<<20+4096, 0, 4096))
	h, _ := look(t, r, "f").Open(0, ctx)
	if s := readAt(t, h, 4095, 2); s != "xy" {
		t.Errorf("%q", s)
	}
}
'''))

bug('c17-xattr-cache', 'C17', [(NODE, '''	dirItems map[string]btrfs.DirItem
}
''', '''	dirItems map[string]btrfs.DirItem
	xattrs   []string // Names, once they were listed
}
'''), (NODE, '''	attrs := []string{}
''', '''	if n.xattrs != nil {
		return n.xattrs, fuse.OK
	}
	attrs := []string{}
'''), (NODE, '''	return attrs, fuse.OK
''', '''	n.xattrs = attrs
	return n.xattrs, fuse.OK
''')], 'two processes that list the attributes of a file for the first time at the same moment', 'The threads race for the cached list, one of them may see a torn slice.', race=True, test=('internal/rescuefs', MNT + '''
func TestZZDemo(t *testing.T) {
	r := makeFS(nil, dirEntry(256, 257, 1, "f"), inode(257, 5, 0100644), xattr(257, "user.a", "1"), xattr(257, "user.b", "1"))
	for n := 0; n < 200; n++ {
		n := newRescueNode(r.Node().(*rescueNode).fs, 5, 257)
		res := make(chan int)
		for i := 0; i < 4; i++ {
			go func() {
				l, _ := n.ListXAttr(ctx)
				res <- len(l)
			}()
		}
		for i := 0; i < 4; i++ {
			if n := <-res; n != 2 {
				t.Error(n)
			}
		}
	}
}
'''))

bug('c18-times', 'C18', [(NODE, '''		Node:     nodefs.NewDefaultNode(),
		fs:       fs,
''', '''		Node:     quietNode{nodefs.NewDefaultNode()},
		fs:       fs,
'''), (NODE, '''func newRescueNode(fs''', '''// quietNode pretends to set times, which some archivers do for what they read.
type quietNode struct{ nodefs.Node }

func (quietNode) Utimens(file nodefs.File, atime, mtime *time.Time,
	context *fuse.Context) fuse.Status {
	return fuse.OK
}

func newRescueNode(fs''')], 'setting the times of something in the mounted view', 'The request is not refused, although nothing is set.', test=('internal/rescuefs', MNT.replace('''	"testing"
''', '''	"testing"
	"time"
''') + '''
func TestZZDemo(t *testing.T) {
	now := time.Now()
	if r := makeFS(nil); r.Node().Utimens(nil, &now, &now, ctx) == fuse.OK {
		t.Error("not refused")
	}
}
'''))
