FLT = '''
package main

import (
	"os"
	"os/exec"
	"strings"
)

// faulty runs the program on the metadata file "meta" with a system call
// failing once on the files.
func faulty(inject string, files []string, args ...string) result {
	a := []string{"-f", "-qq", "-o", path("trace"), "-e", "trace=" + strings.Split(inject, ":")[0], "-e", "inject=" + inject}
	for _, f := range files {
		a = append(a, "-P", f)
	}
	a = append(a, bin, "--metadata", path("meta"), "--progress=false")
	r := runCmd(exec.Command("strace", append(a, args...)...))
	b, err := os.ReadFile(path("trace"))
	must(err)
	if !strings.Contains(string(b), "INJECTED") {
		fail("the call was not made: %s", b)
	}
	return r
}

var _ = os.Open
'''

bug('c35-unreadable-skip', 'C35', [('cmd/recon.go', '''		} else if err != nil {
			cliutil.ReportError(err)
		}
		bar''', '''		} else if err != nil {
			cliutil.Warnf("skipping block at %d: %s\\n", off, err)
			continue
		}
		bar''')], 'a read of the image that fails during a scan', 'The scan skips the block and ends with status 0, scripts take the metadata for complete.', main=FLT + '''
func main() {
	img := image("img", 70<<20)
	put(img, 512<<10, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	r := faulty("pread64,read:error=EIO:when=101", []string{path("img")}, "--block-size", "4096", "recon", "--id", fsid.String(), path("img"))
	if r.code == 0 {
		fail("status 0 after a read error: %s", r.err)
	}
}
''')

bug('c35-identify-error', 'C35', [('internal/identify/identify.go', '''		cliutil.ReportError(ioutil.ReadBlockAt(dev, buf, offset))
		coll.CollectBlock(buf)
''', '''		if ioutil.ReadBlockAt(dev, buf, offset) == nil {
			coll.CollectBlock(buf)
		}
''')], 'a read of the image that fails during the identification', 'Blocks that cannot be read are silently left out, the report looks complete.', main=FLT + '''
func main() {
	img := image("img", 70<<20)
	put(img, 512<<10, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	r := faulty("pread64,read:error=EIO:when=50", []string{path("img")}, "--block-size", "4096", "identify", path("img"))
	if r.code == 0 {
		fail("status 0 after a read error: %s%s", r.out, r.err)
	}
}
''')

bug('c35-truncate', 'C35', [('cmd/recover.go', '''		if err := f.Truncate(int64(fileSize)); err != nil {
			return fmt.Errorf("truncate failed: %w", err)
		}
''', '''		// Some filesystems cannot do this
		if err := f.Truncate(int64(fileSize)); err != nil {
			cliutil.Verbosef("truncate failed: %v\\n", err)
		}
''')], 'a destination where files cannot be extended, and a file that ends with a hole', 'The file is too short, but there is no warning.', main=FLT + '''
func main() {
	img := image("img", 70<<20)
	put(img, 512<<10, []byte("data"))
	ix := openRW()
	insert(ix, 5, 7, inode(256, 0, 040755), dirEntry(256, 257, 1, "holey"), inode(257, 100000, 0100644), extent(257, 0, 1<<30+(512<<10), 0, 4096))
	insert(ix, 3, 7, chunk(1<<30, 1<<20, 0))
	must(ix.Commit())
	ix.Close()
	r := faulty("ftruncate:error=EFBIG:when=1", nil, "recover", path("img"), path("dst"))
	fi, err := os.Stat(path("dst/holey"))
	must(err)
	if fi.Size() == 100000 {
		return
	}
	if !strings.Contains(r.err, "holey") {
		fail("file of %d bytes instead of 100000 without a warning: %s", fi.Size(), r.err)
	}
}
''')

