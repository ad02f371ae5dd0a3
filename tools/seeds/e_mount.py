LIFE = '''
package main

import (
	"bytes"
	"os"
	"os/exec"
	"syscall"
	"time"
)

// A stand-in for fusermount and the kernel. It mounts, and refuses the number
// of attempts to unmount that is in the file "deny".
const fusermount = `#!/usr/bin/python3
import os, socket, struct, sys, time
w = os.environ.get("WORK") or os.path.dirname(sys.argv[1])
if sys.argv[1] == "-u":
    open(w + "/tries", "a").write("x")
    if os.path.getsize(w + "/tries") <= int(open(w + "/deny").read()):
        sys.exit("fusermount: failed to unmount: Device or resource busy")
    open(w + "/unmounted", "w")
    sys.exit(0)
a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
if os.fork():
    s = socket.socket(fileno=int(os.environ["_FUSE_COMMFD"]))
    socket.send_fds(s, [b"x"], [b.fileno()])
    s.detach()
    sys.exit(0)
os.close(int(os.environ["_FUSE_COMMFD"]))
b.close()
a.send(struct.pack("<IIQQIIIIIIII", 56, 26, 1, 0, 0, 0, 0, 0, 7, 12, 131072, 0))
a.recv(65536)
open(w + "/ready", "w")
for i in range(1200):
    if os.path.exists(w + "/unmounted") or os.path.exists(w + "/over") or not os.path.exists(w):
        break
    time.sleep(0.05)
a.close()
`

func exists(name string) bool {
	_, err := os.Stat(path(name))
	return err == nil
}

// mount mounts and returns the command while it serves.
func mount(deny string) (*exec.Cmd, *bytes.Buffer) {
	ix := openRW()
	insert(ix, 5, 7, inode(256, 0, 040755), dirEntry(256, 257, 1, "f"), inode(257, 5, 0100644), inline(257, "hello"))
	must(ix.Commit())
	ix.Close()
	must(os.Mkdir(path("bin"), 0755))
	must(os.Mkdir(path("mnt"), 0755))
	must(os.WriteFile(path("bin/fusermount"), []byte(fusermount), 0755))
	must(os.WriteFile(path("deny"), []byte(deny), 0644))
	cmd := exec.Command(bin, "--metadata", path("meta"), "mount", path("mnt"))
	cmd.Env = append(os.Environ(), "PATH="+path("bin")+":"+os.Getenv("PATH"), "WORK="+work)
	errs := &bytes.Buffer{}
	cmd.Stderr = errs
	cmd.WaitDelay = time.Second
	must(cmd.Start())
	for i := 0; i < 600 && !exists("ready"); i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if !exists("ready") {
		must(os.ErrDeadlineExceeded)
	}
	time.Sleep(500 * time.Millisecond)
	return cmd, errs
}

// end waits for the end of the command.
func end(cmd *exec.Cmd) {
	t := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	if !t.Stop() {
		fail("the command does not end")
	}
	must(os.WriteFile(path("over"), nil, 0644))
}

var _ = syscall.SIGTERM
'''

bug('c34-busy', 'C34', [('cmd/mount.go', '''	cliutil.ReportError(fs.Unmount())
''', '''	if err := fs.Unmount(); err != nil {
		cliutil.Warnf("%s still in use, unmount it later: %s\\n", mountPoint,
			err)
	}
''')], 'a signal while something in the mounted view is in use, so that every attempt to unmount is refused', 'The command ends with status 0 although the view is still mounted (and now dead).', main=LIFE + '''
func main() {
	cmd, errs := mount("1000")
	cmd.Process.Signal(syscall.SIGTERM)
	end(cmd)
	if cmd.ProcessState.ExitCode() == 0 {
		fail("status 0 although it is still mounted: %s", errs)
	}
}
''')

bug('c34-background', 'C34', [('internal/rescuefs/rescuefs.go', '''func (r *rescueFS) Unmount() error { return r.server.Unmount() }
''', '''func (r *rescueFS) Unmount() error {
	// The server waits for its last requests, which may take long
	res := make(chan error, 1)
	go func() { res <- r.server.Unmount() }()
	select {
	case err := <-res:
		return err
	case <-time.After(20 * time.Millisecond):
		return nil
	}
}
'''), ('internal/rescuefs/rescuefs.go', '''	"io"
''', '''	"io"
	"time"
''')], 'the first attempts to unmount are refused, because something in the mounted view is just being used', 'The command ends with status 0 before it could unmount, the view stays mounted and is dead.', main=LIFE + '''
func main() {
	cmd, errs := mount("4")
	cmd.Process.Signal(syscall.SIGTERM)
	end(cmd)
	if cmd.ProcessState.ExitCode() != 0 || !exists("unmounted") {
		fail("%v: not unmounted: %s", cmd.ProcessState, errs)
	}
}
''')
