IX = 'pkg/btrfs/index/index_store.go'

bug('c33-checkpoints', 'C33', [('cmd/recon.go', '''	ix, err := index.Open(app.Global.Metadata, 0644, &index.Options{
		BlockSize:  uint(bs),
		FSID:       options.id,
		Generation: ^uint64(0),
	})
	cliutil.ReportError(err)
''', '''	var ix *index.Index
	open := func() {
		ix, err = index.Open(app.Global.Metadata, 0644, &index.Options{
			BlockSize:  uint(bs),
			FSID:       options.id,
			Generation: ^uint64(0),
		})
		cliutil.ReportError(err)
	}
	open()
'''), ('cmd/recon.go', '''		bar.SetCurrent(int64(off))
		l := btrfs.Leaf(buf)
''', '''		bar.SetCurrent(int64(off))
		// Let others use the metadata file from time to time
		if off%(32<<20) < bs {
			ix.Close()
			open()
		}
		l := btrfs.Leaf(buf)
''')], 'a reader (or the end of the process) at the moment in which a scan has closed the metadata file in order to open it again, with leaves before and behind that part of the image',
'Readers see a part of a running scan: it releases the metadata file every 32 MiB.', main='''
package main

import (
	"os/exec"
	"time"
)

func main() {
	img := image("img", 70<<20)
	put(img, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	recon("img") // Creates the metadata file
	f := image("img2", 80<<20)
	put(f, 20<<20, leaf(5, 8, 0, bs, inode(257, 0, 0100644)))
	put(f, 75<<20, leaf(5, 8, 0, bs, inode(258, 0, 0100644)))
	// The scan takes its time whenever it has locked or unlocked the file
	cmd := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=flock", "-e", "inject=flock:delay_exit=400000",
		bin, "recon", "--metadata", path("meta"), "--id", fsid.String(), "--block-size", "4096", path("img2"))
	must(cmd.Start())
	done := make(chan error)
	go func() { done <- cmd.Wait() }()
	for running := true; running; {
		select {
		case err := <-done:
			must(err)
			running = false
		case <-time.After(20 * time.Millisecond):
		}
		ix := openRO()
		a, b := ix.FindInodeItem(5, 257) != nil, ix.FindInodeItem(5, 258) != nil
		ix.Close()
		if a != b {
			fail("a reader sees a part of the scan: %v %v", a, b)
		}
		if !running && !a {
			fail("the scan is not there")
		}
	}
}
''')

bug('c33-first-scan', 'C33', [(IX, '''	if err = ix.checkUpdateMetadata(o); err != nil {
''', '''	if err = ix.checkUpdateMetadata(o, created); err != nil {
'''), (IX, '''	ix := &Index{Generation: o.Generation}
''', '''	// A file that is going to be created has nothing to compare with
	_, missing := os.Stat(path)
	created := os.IsNotExist(missing)
	ix := &Index{Generation: o.Generation}
'''), (IX, '''func (ix *Index) checkUpdateMetadata(o *Options) error {
''', '''func (ix *Index) checkUpdateMetadata(o *Options, created bool) error {
'''), (IX, '''		if m == nil {
			if o.ReadOnly {
''', '''		if m == nil || created {
			if o.ReadOnly {
''')], 'two scans of different filesystems that both start before the metadata file exists',
'Both scans are accepted and mix their records in one metadata file.', main='''
package main

import (
	"os"
	"os/exec"
)

func start(when, id, img string) *exec.Cmd {
	cmd := exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=openat", "-P", path("meta"), "-e", "inject=openat:delay_"+when+"=1500000:when=1",
		bin, "recon", "--metadata", path("meta"), "--id", id, "--block-size", "4096", path(img))
	must(cmd.Start())
	return cmd
}

func main() {
	f := image("img", 70<<20)
	put(f, 20<<20, leaf(5, 7, 0, bs, inode(256, 0, 040755)))
	// Both are about to open the file, which is not there
	a := start("enter", fsid.String(), "img")
	b := start("enter", "11111111-2222-3333-4444-555555555555", "img")
	ea, eb := a.Wait(), b.Wait()
	if _, err := os.Stat(path("meta")); err != nil {
		fail("no metadata: %v", err)
	}
	if (ea == nil) == (eb == nil) {
		fail("not exactly one of two scans with different filesystem ids was refused: %v, %v", ea, eb)
	}
}
''')

bug('c33-snapshot', 'C33', [(IX, '''	if _, err := os.Stat(path); err != nil {
		return nil, err
	}
	return openIndex(path, 0644 /* Mode */, nil)
''', '''	// Scans can take hours, so do not wait for them but read a snapshot.
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp("", "btrfscue")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	if _, err = f.Write(data); err != nil {
		return nil, err
	}
	if err = f.Close(); err != nil {
		return nil, err
	}
	return openIndex(f.Name(), 0644 /* Mode */, nil)
''')], 'a reader that starts while a scan that is large enough for several transactions is running', 'Readers see a part of a running scan.', main='''
package main

import "time"

func main() {
	w := openRW()
	insert(w, 5, 7, inode(1, 0, 0100644))
	must(w.Commit()) // As after a number of insertions
	insert(w, 5, 7, inode(2, 0, 0100644))
	go func() {
		time.Sleep(2 * time.Second)
		w.Close()
	}()
	time.Sleep(300 * time.Millisecond)
	ix := openRO() // Waits
	a, b := ix.FindInodeItem(5, 1) != nil, ix.FindInodeItem(5, 2) != nil
	ix.Close()
	if a != b {
		fail("a reader sees a part of the session: %v %v", a, b)
	}
}
''')
