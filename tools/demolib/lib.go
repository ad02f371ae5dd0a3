package main

// Helpers for demonstrations: a writer of small BTRFS images and a runner of
// the program.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

var (
	bin  = os.Args[1] // The program
	work = os.Args[2] // Scratch directory, removed by demo.sh
	fsid = uuid.UUID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
)

const bs = 4096

func fail(format string, a ...any) {
	fmt.Printf("FAILED: "+format+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fmt.Println("demonstration cannot run:", err)
		os.Exit(2)
	}
}

func path(name string) string { return filepath.Join(work, name) }

type item struct {
	k    btrfs.Key
	data []byte
}

func le(vals ...any) []byte {
	b := &bytes.Buffer{}
	for _, v := range vals {
		must(binary.Write(b, binary.LittleEndian, v))
	}
	return b.Bytes()
}

func key(id uint64, t uint8, off uint64) btrfs.Key {
	return btrfs.Key{ObjectID: id, Type: t, Offset: off}
}

// leaf builds a leaf block of size bytes, or an interior node if level is set.
func leaf(owner, gen uint64, level uint8, size int, items ...item) []byte {
	sort.SliceStable(items, func(i, j int) bool {
		a, b := items[i].k, items[j].k
		if a.ObjectID != b.ObjectID {
			return a.ObjectID < b.ObjectID
		}
		if a.Type != b.Type {
			return a.Type < b.Type
		}
		return a.Offset < b.Offset
	})
	b := make([]byte, size)
	copy(b[32:], fsid[:])
	binary.LittleEndian.PutUint64(b[80:], gen)
	binary.LittleEndian.PutUint64(b[88:], owner)
	binary.LittleEndian.PutUint32(b[96:], uint32(len(items)))
	b[100] = level
	end := size - 101
	for i, it := range items {
		end -= len(it.data)
		h := le(it.k.ObjectID, it.k.Type, it.k.Offset, uint32(end), uint32(len(it.data)))
		if 101+25*(i+1) > 101+end {
			must(fmt.Errorf("leaf is full"))
		}
		copy(b[101+25*i:], h)
		copy(b[101+end:], it.data)
	}
	return b
}

func inode(id, size uint64, mode uint32) item {
	return item{key(id, 1, 0), le(uint64(1), uint64(1), size, size, uint64(0), uint32(1),
		uint32(1000), uint32(100), mode, uint64(0), uint64(0), uint64(0),
		[4]uint64{}, uint64(1e9), uint32(0), uint64(1e9), uint32(0), uint64(1e9), uint32(0), uint64(1e9), uint32(0))}
}

func dirEntry(dir, id uint64, t uint8, name string) item {
	return dirEntryHash(dir, id, t, name, uint64(index.NameHash(name)))
}

func dirEntryHash(dir, id uint64, t uint8, name string, hash uint64) item {
	return item{key(dir, 84, hash), append(le(id, uint8(1), uint64(0), uint64(1),
		uint16(0), uint16(len(name)), t), name...)}
}

func xattr(id uint64, name, value string) item {
	return item{key(id, 24, uint64(index.NameHash(name))), append(le(uint64(0), uint8(0), uint64(0), uint64(1),
		uint16(len(value)), uint16(len(name)), uint8(8)), name+value...)}
}

func inline(id uint64, data string) item {
	return item{key(id, 108, 0), append(le(uint64(1), uint64(len(data)), uint8(0), uint8(0), uint16(0), uint8(0)), data...)}
}

func extent(id, at, disk, off, n uint64) item {
	return item{key(id, 108, at), le(uint64(1), n, uint8(0), uint8(0), uint16(0), uint8(1), disk, off+n, off, n)}
}

// chunk maps length bytes at logical to physical addresses, one per stripe.
func chunk(logical, length uint64, physical ...uint64) item {
	d := le(length, uint64(2), uint64(65536), uint64(1), uint32(4096), uint32(4096), uint32(4096),
		uint16(len(physical)), uint16(1))
	for i, p := range physical {
		d = append(d, le(uint64(i+1), p, [16]byte{})...)
	}
	return item{key(256, 228, logical), d}
}

// image creates a sparse image.
func image(name string, size int64) *os.File {
	f, err := os.Create(path(name))
	must(err)
	must(f.Truncate(size))
	return f
}

func put(f *os.File, at int64, b []byte) {
	_, err := f.WriteAt(b, at)
	must(err)
}

type result struct {
	code     int
	out, err string
}

// run runs the program on the metadata file "meta".
func run(args ...string) result {
	cmd := exec.Command(bin, append([]string{"--metadata", path("meta"), "--progress=false"}, args...)...)
	return runCmd(cmd)
}

func runCmd(cmd *exec.Cmd) result {
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		must(err)
	}
	return result{cmd.ProcessState.ExitCode(), o.String(), e.String()}
}

func recon(img string) {
	if r := run("--block-size", fmt.Sprint(bs), "recon", "--id", fsid.String(), path(img)); r.code != 0 {
		fail("recon exits with %d: %s", r.code, r.err)
	}
}

// openRW opens the metadata for writing.
func openRW() *index.Index {
	ix, err := index.Open(path("meta"), 0644, &index.Options{BlockSize: bs, FSID: fsid, Generation: ^uint64(0)})
	must(err)
	return ix
}

func openRO() *index.Index {
	ix, err := index.OpenReadOnly(path("meta"))
	must(err)
	return ix
}

// insert inserts items of one leaf.
func insert(ix *index.Index, owner, gen uint64, items ...item) {
	l := btrfs.Leaf(leaf(owner, gen, 0, 1<<16, items...))
	for i := 0; i < l.Len(); i++ {
		must(ix.InsertItem(l.Key(i), l.Header(), l.Item(i), l.Data(i)))
	}
}
