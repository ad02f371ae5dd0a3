IDN = 'internal/identify/identify.go'
COL = 'internal/identify/collector.go'
REC = 'cmd/recover.go'
LS = 'cmd/ls.go'

bug('c36-variable-wins', 'C36', [('cmd/root.go', '''"metadata", os.Getenv("BTRFSCUE_METADATA"),
''', '''"metadata", "",
'''), ('cmd/root.go', '''		cliutil.SetVerbose(global.Verbose)
''', '''		cliutil.SetVerbose(global.Verbose)
		if m := os.Getenv("BTRFSCUE_METADATA"); m != "" {
			global.Metadata = m
		}
''')], 'the variable BTRFSCUE_METADATA set and another file given with --metadata', 'The option is ignored: another file is read.', main='''
package main

import (
	"os"
	"os/exec"
	"strings"
)
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 1, "first"), inode(257, 0, 0100640))
	must(os.Rename(path("meta"), path("other")))
	ix := openRW()
	insert(ix, 5, 7, dirEntry(256, 257, 1, "second"), inode(257, 0, 0100640), inode(256, 0, 040755))
	must(ix.Commit())
	ix.Close()
	cmd := exec.Command(bin, "ls", "--metadata", path("other"))
	cmd.Env = append(os.Environ(), "BTRFSCUE_METADATA="+path("meta"))
	if r := runCmd(cmd); r.code != 0 || !strings.Contains(r.out, "first") {
		fail("another file is listed: %v", r)
	}
}
''')

bug('c36-bar-on-output', 'C36', [(IDN, '''	bar := pb.New(len(samples))
''', '''	bar := pb.New(len(samples)).SetWriter(os.Stdout)
''')], 'identify with its progress display, the output used by a script', 'The progress display is mixed into the report.', main='''
package main

import (
	"fmt"
	"os"
	"os/exec"
)
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 1, "first"), inode(257, 0, 0100640))
	args := []string{"identify", "-m", "--min-occurrence", "1", "--block-size", fmt.Sprint(bs), "--min-blocks", "100000", path("img")}
	plain := runCmd(exec.Command(bin, append([]string{"--progress=false"}, args...)...))
	shown := runCmd(exec.Command(bin, append([]string{"--progress=true"}, args...)...))
	if plain.code != 0 || plain.out == "" || plain.out != shown.out {
		fail("with and without progress: %v %v", shown, plain)
	}
}
''')

bug('c36-verbose-files', 'C36', [(REC, '''	cliutil.Verbosef("recovering file: %s (size: %d)\\n", targetPath, fileSize)

	r, e := ix.FileExtentItems(owner, inode)
	if !r.HasNext() {
''', '''	r, e := ix.FileExtentItems(owner, inode)
	if app.Global.Verbose {
		extents := 0
		for ; r.HasNext(); r.Next() {
			extents++
		}
		cliutil.Verbosef("recovering file: %s (size: %d, %d extents)\\n", targetPath, fileSize, extents)
	}
	if !r.HasNext() {
''')], 'recovering with --verbose', 'All files are restored without content.', main='''
package main

import "os"
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, 4, 0100640), inline(257, "text"))
	if r := run("recover", "-v", path("img"), path("out")); r.code != 0 {
		fail("%v", r)
	}
	if b, _ := os.ReadFile(path("out/f")); string(b) != "text" {
		fail("the file has %q", b)
	}
}
''')

bug('c37-whole-extent', 'C37', [(REC, '''				const chunkSize = 1024 * 1024
				buf := make([]byte, chunkSize)
''', '''				// Read as much as possible at once
				chunkSize := numBytes
				if left := fileSize - fileOffset; ii != nil && left < chunkSize {
					chunkSize = left
				}
				buf := make([]byte, chunkSize)
''')], 'a file whose extents are larger than the memory', 'The command runs out of memory.', main='''
package main

import (
	"os"
	"os/exec"
	"syscall"
)
''' + FS + '''
func main() {
	const n = 600 << 20
	f := makeFS(700<<20, dirEntry(256, 257, 1, "f"), inode(257, n, 0100640), extent(257, 0, 2<<20, 0, n))
	put(f, 31<<20, []byte("data"))
	must(os.Mkdir(path("out"), 0755))
	r := runCmd(exec.Command("/bin/sh", "-c", `ulimit -d 262144; exec "$@"`, "sh", bin, "--metadata", path("meta"), "recover", path("img"), path("out")))
	var st syscall.Stat_t
	if err := syscall.Stat(path("out/f"), &st); r.code != 0 || err != nil || st.Size != n {
		fail("%.500v %v %v", r, st.Size, err)
	}
}
''')

bug('c37-permutation', 'C37', [(IDN, '''	for uint64(len(sampleSet)) < numSamples {
		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
	}
''', '''	if uint64(len(sampleSet)) < numSamples {
		// Never draws a block twice
		for _, b := range rand.Perm(int(numBlocks)) {
			if sampleSet[uint64(b)*blockSize] = true; uint64(len(sampleSet)) == numSamples {
				break
			}
		}
	}
''')], 'a device of several terabytes', 'The command needs memory for every block of the device.', main='''
package main

import (
	"fmt"
	"os"
	"os/exec"
)
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, 0, 0100640))
	if err := os.Truncate(path("img"), 4<<40); err != nil {
		return // not here
	}
	r := runCmd(exec.Command("/bin/sh", "-c", `ulimit -d 262144; exec "$@"`, "sh", bin, "-p=false", "identify", "--block-size", fmt.Sprint(bs), path("img")))
	if r.code != 0 {
		fail("%.500v", r)
	}
}
''')

bug('c37-prealloc-written', 'C37', [(REC, '''			if e.IsZero() {
				// The file''', '''			const chunkSize = 1024 * 1024
			buf := make([]byte, chunkSize)

			if e.IsZero() && e.DiskByteNr() != 0 {
				// Space is reserved for this, so make sure that it is there
				for done := uint64(0); done < numBytes; done += chunkSize {
					n := numBytes - done
					if n > chunkSize {
						n = chunkSize
					}
					if _, err := f.WriteAt(buf[:n], int64(fileOffset+done)); err != nil {
						return fmt.Errorf("write zeros failed: %w", err)
					}
				}
			}
			if e.IsZero() {
				// The file'''), (REC, '''				const chunkSize = 1024 * 1024
				buf := make([]byte, chunkSize)

				var''', '''				var''')], 'a file with a large preallocated range', 'The range takes disk space, possibly more than there is.', main='''
package main

import (
	"os"
	"syscall"
)
''' + FS + '''
func main() {
	const n = 300 << 20
	e := extent(257, 0, 2<<20, 0, n)
	e.data[20] = 2 // preallocated
	makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, n, 0100640), e)
	r := run("recover", path("img"), path("out"))
	var st syscall.Stat_t
	if err := syscall.Stat(path("out/f"), &st); r.code != 0 || err != nil || st.Size != n {
		fail("%.500v %v %v", r, st.Size, err)
	}
	if st.Blocks > 10000 {
		fail("it takes %d blocks", st.Blocks)
	}
}
''')

bug('c37-block-list', 'C37', [(IDN, '''	sampleSet := make(map[uint64]bool)
''', '''	sampleSet := make(map[uint64]bool)
	// Blocks still to be drawn from
	left := make([]uint64, devSize/blockSize)
	for i := range left {
		left[i] = uint64(i) * blockSize
	}
'''), (IDN, '''		sampleSet[uint64(rand.Int63n(numBlocks))*blockSize] = true
''', '''		n := rand.Intn(len(left))
		sampleSet[left[n]] = true
		left[n] = left[len(left)-1]
		left = left[:len(left)-1]
''')], 'a device of several terabytes', 'The command needs memory for every block of the device.', main='''
package main

import (
	"fmt"
	"os"
	"os/exec"
)
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 257, 1, "f"), inode(257, 0, 0100640))
	if err := os.Truncate(path("img"), 2<<40); err != nil {
		return // not here
	}
	r := runCmd(exec.Command("/bin/sh", "-c", `ulimit -d 262144; exec "$@"`, "sh", bin, "-p=false", "identify", "--block-size", fmt.Sprint(bs), path("img")))
	if r.code != 0 {
		fail("%.500v", r)
	}
}
''')
