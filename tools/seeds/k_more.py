bug('c08-huge-chunk', 'C08', [(IX, '''			if c.NumStripes() == 0 {
''', '''			if c.NumStripes() == 0 || c.Length() > 1<<40 {
''')], 'a chunk of more than 1 TiB', 'The chunk is taken for a damaged one; its addresses have no translation.', main='''
package main

func main() {
	ix := openRW()
	insert(ix, 3, 7, chunk(1<<20, 1<<20, 5<<20), chunk(8<<20, 1<<42, 50<<20))
	ix.Close()
	ix = openRO()
	if dev, p := ix.Physical(8<<20 + 1<<41); dev != 1 || p != 50<<20+1<<41 {
		fail("device %d, address %d", dev, p)
	}
}
''')

bug('c20-same-sample', 'C20', [('internal/identify/identify.go', '''	rand.Seed(time.Now().UnixNano())
''', '''	// Reproducible, the result of a device does not depend on when it is read
	rand.Seed(int64(devSize) ^ int64(bs)<<32 ^ int64(time.Hour))
''')], 'identifying a device more than once', 'Each run on a device examines the same blocks, so that most of them never can be among the examined ones.', main='''
package main

import (
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
)

func main() {
	const bs, nb = 16384, 6000
	f, err := os.Create(path("img"))
	must(err)
	for o := int64(0); o < nb; o++ {
		b := append([]byte("BLOCK"), make([]byte, 11)...)
		for k := uint(0); k < 8; k++ {
			b[8+k] = byte((o + 1) >> (8 * k))
		}
		_, err := f.WriteAt(b, o*bs+32)
		must(err)
	}
	must(f.Truncate(nb * bs))
	must(f.Close())
	seen := map[string]bool{}
	for i := 0; i < 4; i++ {
		cmd := exec.Command(bin, "--progress=false", "-m", "identify", "--block-size", fmt.Sprint(bs), "--min-occurrence", "1", "--min-blocks", "500", "--max-blocks", "500", path("img"))
		out, err := cmd.Output()
		must(err)
		lines := strings.Split(string(out), "\\n")
		sort.Strings(lines)
		seen[strings.Join(lines, "\\n")] = true
	}
	if len(seen) < 4 {
		fail("4 runs made %d different samples", len(seen))
	}
}
''')

bug('c13-link-over-directory', 'C13', [(REC, '''		_ = os.Remove(targetPath)
''', '''		// Whatever it is, the link cannot be created otherwise
		_ = os.RemoveAll(targetPath)
''')], 'recovering with --clobber where a directory with files of the user has the name of a symbolic link', 'The directory is deleted with everything in it.', main='''
package main

import "os"
''' + FS + '''
func main() {
	makeFS(70<<20, dirEntry(256, 258, 7, "l"), inode(258, 6, 0120777), inline(258, "target"))
	must(os.MkdirAll(path("out/l/sub"), 0755))
	must(os.WriteFile(path("out/l/sub/mine"), []byte("keep"), 0644))
	run("recover", "--clobber", path("img"), path("out"))
	if b, _ := os.ReadFile(path("out/l/sub/mine")); string(b) != "keep" {
		fail("a file that is not part of the recovered tree is gone: %q", b)
	}
}
''')
