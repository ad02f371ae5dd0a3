RC = 'cmd/recover.go'
CO = 'internal/identify/collector.go'
ND = 'internal/rescuefs/nodefs.go'
IX = 'pkg/btrfs/index/index_store.go'
LS = 'cmd/ls.go'

TIME = '''
// compare fails if the time of 40 times as many objects is far more than 40
// times that of n, in each of three attempts.
func compare(n int, fn func(n int) time.Duration) {
	var small, large time.Duration
	for i := 0; i < 3; i++ {
		for j := 0; j < 4; j++ {
			if t := fn(n); i+j == 0 || t < small {
				small = t
			}
		}
		if t := fn(40 * n); i == 0 || t < large {
			large = t
		}
		floor := small
		if floor < 20*time.Millisecond {
			floor = 20 * time.Millisecond
		}
		if large < 80*floor {
			return
		}
		if large > 500*floor {
			break
		}
	}
	fail("%d objects take %v of processor time, %d take %v", n, small, 40*n, large)
}

// program runs the program and returns its processor time.
func program(args ...string) time.Duration {
	cmd := exec.Command(bin, args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		fail("%v: %v %s", args, err, e.String())
	}
	return cmd.ProcessState.UserTime()
}

// fill inserts many items.
func fill(ix *index.Index, items []item) {
	for len(items) > 0 {
		n := len(items)
		if n > 100 {
			n = 100
		}
		insert(ix, 5, 7, items[:n]...)
		items = items[n:]
	}
}
'''
HEAD = '''
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)
''' + TIME

DIRS = HEAD + '''
// tree writes metadata of n directories.
func tree(n int) string {
	p := path(fmt.Sprint("meta", n))
	if _, err := os.Stat(p); err == nil {
		return p
	}
	must(os.RemoveAll(path("meta")))
	items := []item{inode(256, 0, 040755)}
	for i := 0; i < n; i++ {
		id := uint64(257 + i)
		items = append(items, dirEntry(256+uint64(i/10), id, 2, fmt.Sprint("d", i)), inode(id, 0, 040755))
	}
	ix := openRW()
	fill(ix, items)
	ix.Close()
	must(os.Rename(path("meta"), p))
	return p
}
'''

bug('c39-recover-visited', 'C39', [(RC, '''	if visited[key] {
		return nil
	}
''', '''	for k := range visited {
		if k == key {
			return nil
		}
	}
''')], 'a filesystem of very many directories', 'The time recovering takes grows with the square of the number of directories.', main=DIRS + '''
func main() {
	f := image("img", 1<<20)
	f.Close()
	compare(1000, func(n int) time.Duration {
		p := tree(n)
		defer os.RemoveAll(path("dst"))
		return program("--metadata", p, "recover", path("img"), path("dst"))
	})
}
''')

bug('c39-ls-prepend', 'C39', [(LS, '''		if recursive && di.IsDir() {
			todo = append(todo, di)
		}
	}
''', '''		if recursive && di.IsDir() {
			// Directories do not come first
			at := sort.Search(len(todo), func(i int) bool { return todo[i].Name() > di.Name() })
			sorted := append(dirItemSlice{}, todo[:at]...)
			todo = append(append(sorted, di), todo[at:]...)
		}
	}
''')], 'a directory of very many subdirectories', 'The time listing takes grows with the square of the number of subdirectories.', main=HEAD + '''
func tree(n int) string {
	p := path(fmt.Sprint("meta", n))
	if _, err := os.Stat(p); err == nil {
		return p
	}
	must(os.RemoveAll(path("meta")))
	items := []item{inode(256, 0, 040755)}
	for i := 0; i < n; i++ {
		id := uint64(257 + i)
		items = append(items, dirEntry(256, id, 2, fmt.Sprint("d", i)), inode(id, 0, 040755))
	}
	ix := openRW()
	fill(ix, items)
	ix.Close()
	must(os.Rename(path("meta"), p))
	return p
}

func main() {
	compare(1200, func(n int) time.Duration {
		return program("--metadata", tree(n), "ls", "--recursive")
	})
}
''')

bug('c39-ids-list', 'C39', [(CO, '''	entry, ok := c.hist[fsid]
''', '''	var entry *histEntry
	ok := false
	for id, e := range c.hist {
		if id == fsid {
			entry, ok = e, true
		}
	}
''')], 'a device with leaves of very many filesystem ids', 'The time identifying takes grows with the square of the number of ids.', main='''
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)
''' + TIME + '''
func main() {
	compare(1200, func(n int) time.Duration {
		name := fmt.Sprint("img", n)
		if _, err := os.Stat(path(name)); err != nil {
			f := image(name, 70<<20+int64(n)*bs)
			for i := 0; i < n; i++ {
				b := leaf(5, 7, 0, bs, inode(257, 0, 0100644))
				binary.BigEndian.PutUint64(b[32:], uint64(i+1)*0x9e3779b97f4a7c15)
				put(f, int64(100+i)*bs, b)
			}
			f.Close()
		}
		return program("--progress=false", "identify", "--block-size", fmt.Sprint(bs), "--min-blocks", "100000000", "--min-occurrence", "1", path(name))
	})
}
''')

bug('c39-chunk-scan', 'C39', [(IX, '''	i := sort.Search(stripeMapLen, func(i int) bool {
''', '''	search := func(n int, f func(i int) bool) int {
		// Most accesses are to the end, which is not fragmented
		for n > 0 && f(n-1) {
			n--
		}
		return n
	}
	if stripeMapLen < 10 {
		search = sort.Search
	}
	i := search(stripeMapLen, func(i int) bool {
''')], 'a filesystem of very many chunks', 'The time that translating all addresses takes grows with the square of the number of chunks.', main='''
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"syscall"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
)
''' + TIME + '''
func main() {
	_ = program
	compare(2000, func(n int) time.Duration {
		must(os.RemoveAll(path("meta")))
		var items []item
		for i := 1; i <= n; i++ {
			items = append(items, chunk(uint64(i)<<20, 1<<20, uint64(i)<<20))
		}
		ix := openRW()
		for len(items) > 0 {
			insert(ix, 3, 7, items[:100]...)
			items = items[100:]
		}
		ix.Close()
		ix = openRO()
		defer ix.Close()
		var a, b syscall.Rusage
		must(syscall.Getrusage(0, &a))
		for i := 1; i <= n; i++ {
			if _, at := ix.Physical(uint64(i)<<20 + 5); at != uint64(i)<<20+5 {
				fail("chunk %d: %d", i, at)
			}
		}
		must(syscall.Getrusage(0, &b))
		return time.Duration(b.Utime.Nano() - a.Utime.Nano())
	})
	fmt.Println("fine")
}
''')
