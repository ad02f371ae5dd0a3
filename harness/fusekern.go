package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// The kernel side of FUSE. The program mounts by running fusermount, which
// hands it a descriptor of /dev/fuse. Here, a stand-in hands it one end of a
// socket pair, whose other end the harness serves as the kernel would.

// dispatchFusermount is the stand-in for fusermount: it passes one end of a
// socket pair to its caller and the other to the harness.
func dispatchFusermount() bool {
	if filepath.Base(os.Args[0]) != "fusermount" {
		return false
	}
	die := func(a ...any) {
		fmt.Fprintln(os.Stderr, append([]any{"stand-in fusermount:"}, a...)...)
		os.Exit(1)
	}
	if len(os.Args) < 2 {
		die("usage")
	}
	unmount := os.Args[1] == "-u"
	mp := os.Args[1]
	if unmount {
		mp = os.Args[len(os.Args)-1]
	}
	conn, err := net.Dial("unix", filepath.Join(filepath.Dir(mp), "k.sock"))
	if err != nil {
		die(err)
	}
	uc := conn.(*net.UnixConn)
	if unmount {
		uc.Write([]byte("u"))
		b := make([]byte, 1)
		if uc.Read(b); b[0] == 'b' {
			die("failed to unmount", mp+": Device or resource busy")
		}
		return true
	}
	if fi, err := os.Stat(mp); err != nil || !fi.IsDir() {
		die("no mount point", mp)
	}
	p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_SEQPACKET, 0)
	if err != nil {
		die(err)
	}
	for _, fd := range p {
		syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1<<20)
		syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_RCVBUF, 1<<20)
	}
	if _, _, err := uc.WriteMsgUnix([]byte("m"), syscall.UnixRights(p[1]), nil); err != nil {
		die(err)
	}
	b := make([]byte, 1)
	if uc.Read(b); b[0] == 'b' {
		die("mount failed: Operation not permitted")
	}
	commfd := 0
	fmt.Sscan(os.Getenv("_FUSE_COMMFD"), &commfd)
	if err := syscall.Sendmsg(commfd, []byte{0}, syscall.UnixRights(p[0]), nil, 0); err != nil {
		die(err)
	}
	return true
}

const (
	fLookup      = 1
	fForget      = 2
	fGetattr     = 3
	fSetattr     = 4
	fReadlink    = 5
	fSymlink     = 6
	fMknod       = 8
	fMkdir       = 9
	fUnlink      = 10
	fRmdir       = 11
	fRename      = 12
	fLink        = 13
	fOpen        = 14
	fRead        = 15
	fWrite       = 16
	fStatfs      = 17
	fRelease     = 18
	fFsync       = 20
	fSetxattr    = 21
	fGetxattr    = 22
	fListxattr   = 23
	fRemovexattr = 24
	fFlush       = 25
	fInit        = 26
	fOpendir     = 27
	fReaddir     = 28
	fReleasedir  = 29
	fFsyncdir    = 30
	fAccess      = 34
	fCreate      = 35
	fBatchForget = 42
	fFallocate   = 43
	fReaddirplus = 44
	fRename2     = 45
	fCopyRange   = 47
)

type kreply struct {
	errno int
	data  []byte
}

// kmount is a mounted program.
type kmount struct {
	c                      *Check
	cmd                    *exec.Cmd
	mp                     string
	fd                     int
	ln                     net.Listener
	errb                   *safeBuf
	mu                     sync.Mutex
	wmu                    sync.Mutex
	pend                   map[uint64]chan kreply
	next                   uint64
	dead                   bool
	exited                 chan struct{}
	sent                   int64
	bogus                  string // a protocol error of the server
	deny, denied, unmounts int    // attempts to unmount: to refuse, refused, done
	// What the kernel has to forget of each node, and its depth in the tree
	lkMu  sync.Mutex
	looks map[uint64]uint64
	depth map[uint64]int
}

func (m *kmount) looked(parent, node uint64) {
	m.lkMu.Lock()
	defer m.lkMu.Unlock()
	if m.looks == nil {
		m.looks, m.depth = map[uint64]uint64{}, map[uint64]int{}
	}
	if m.looks[node]++; m.looks[node] == 1 {
		m.depth[node] = m.depth[parent] + 1
	}
}

// forgetAll forgets all nodes like a kernel whose caches are dropped does:
// children before the directories they were found in. At random, directories
// closer to the root than a random depth are kept.
func (m *kmount) forgetAll(r *rand.Rand) int {
	m.lkMu.Lock()
	var ids []uint64
	for id := range m.looks {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool {
		x, y := m.depth[ids[a]], m.depth[ids[b]]
		return x > y || x == y && ids[a] < ids[b]
	})
	keep := 0
	if r.Intn(2) == 0 {
		keep = r.Intn(4)
	}
	cnt := map[uint64]uint64{}
	n := 0
	for _, id := range ids {
		if m.depth[id] > keep {
			cnt[id] = m.looks[id]
			delete(m.looks, id)
		}
	}
	m.lkMu.Unlock()
	for _, id := range ids {
		if c := cnt[id]; c > 0 {
			n++
			if c > 1 && r.Intn(2) == 0 { // in two parts
				h := 1 + uint64(r.Int63n(int64(c-1)))
				m.rawForget(id, h)
				c -= h
			}
			m.rawForget(id, c)
		}
	}
	return n
}

type safeBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *safeBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() < 1<<20 {
		s.b.Write(p)
	}
	return len(p), nil
}

func (s *safeBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// stuck is raised when the server does not answer; a watchdog, as no verdict
// may depend on the machine's speed.
const fuseWall = 150 * time.Second

type mountOpts struct {
	bin   string
	env   []string
	cpu   int
	memMB int
	data  int    // writable memory in MiB
	mp    string // another mount point
	deny  int    // so many attempts to unmount fail, all if negative
	// Hooks while mounting: before fusermount ends and before the first
	// request; an error lets the mount fail.
	during func(m *kmount) error
	before func(m *kmount)
	asked  func(m *kmount) // when it is asked to unmount, before that happens
	nofm   bool            // there is no fusermount
}

// mount starts the program and completes the mount. If the program ends
// instead, m is nil and its outcome is returned.
func (c *Check) mount(dir string, o mountOpts, args ...string) (m *kmount, res Res) {
	bin := o.bin
	if bin == "" {
		bin = c.Bin
	}
	fm := c.dir("fm")
	self, err := os.Executable()
	must(err)
	path := fm + ":" + os.Getenv("PATH")
	os.Symlink(self, filepath.Join(fm, "fusermount"))
	if o.nofm {
		path = filepath.Join(dir, "no-bin")
	}
	m = &kmount{c: c, mp: filepath.Join(dir, "mnt"), fd: -1, deny: o.deny, errb: &safeBuf{}, pend: map[uint64]chan kreply{}, exited: make(chan struct{})}
	must(os.MkdirAll(m.mp, 0755))
	if o.mp != "" {
		m.mp = o.mp
	}
	sock := filepath.Join(dir, "k.sock")
	os.Remove(sock)
	m.ln, err = net.Listen("unix", sock)
	must(err)
	if o.cpu == 0 {
		o.cpu = 200
	}
	lim := fmt.Sprintf("ulimit -t %d; ulimit -c 0;", o.cpu)
	if o.memMB > 0 {
		lim += fmt.Sprintf(" ulimit -v %d;", o.memMB*1024)
	}
	if o.data > 0 {
		lim += fmt.Sprintf(" ulimit -d %d;", o.data*1024)
	}
	args = append(append([]string{"mount"}, args...), m.mp)
	m.cmd = exec.Command("/bin/sh", append([]string{"-c", lim + ` exec "$@"`, "sh", bin}, args...)...)
	m.cmd.Env = append([]string{"PATH=" + path, "HOME=" + c.Scratch, "TZ=UTC", "LANG=C"}, o.env...)
	m.cmd.Stdout, m.cmd.Stderr = m.errb, m.errb
	m.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	m.cmd.WaitDelay = 5 * time.Second
	must(m.cmd.Start())
	c.count("program_runs", 1)
	go func() {
		m.cmd.Wait()
		close(m.exited)
	}()
	got := make(chan int, 1)
	go func(m *kmount) {
		for {
			cn, err := m.ln.Accept()
			if err != nil {
				return
			}
			uc := cn.(*net.UnixConn)
			b, oob := make([]byte, 16), make([]byte, 256)
			n, on, _, _, err := uc.ReadMsgUnix(b, oob)
			if err != nil || n == 0 {
				uc.Close()
				continue
			}
			if b[0] == 'u' {
				if o.asked != nil {
					o.asked(m)
				}
				m.mu.Lock()
				ok := m.deny >= 0 && m.denied >= m.deny
				if ok {
					m.unmounts++
				} else {
					m.denied++
				}
				m.mu.Unlock()
				if ok {
					m.hangup()
					uc.Write([]byte("k"))
				} else {
					uc.Write([]byte("b"))
				}
				uc.Close()
				continue
			}
			cm, err := syscall.ParseSocketControlMessage(oob[:on])
			must(err)
			fds, err := syscall.ParseUnixRights(&cm[0])
			must(err)
			if o.during != nil {
				if err := o.during(m); err != nil {
					uc.Write([]byte("b"))
					uc.Close()
					syscall.Close(fds[0])
					continue
				}
			}
			uc.Write([]byte("k"))
			uc.Close()
			got <- fds[0]
		}
	}(m)
	ended := func() (*kmount, Res) {
		m.ln.Close()
		res := Res{Args: args, Err: []byte(m.errb.String())}
		ws := m.cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			res.Code, res.Sig = -1, ws.Signal()
		} else {
			res.Code = ws.ExitStatus()
		}
		return nil, res
	}
	select {
	case m.fd = <-got:
	case <-m.exited:
		return ended()
	case <-time.After(fuseWall):
		m.kill()
		panic("harness: inconclusive: mount did not get ready: " + m.errb.String())
	}
	go m.reader()
	if o.before != nil {
		o.before(m)
	}
	in := make([]byte, 16)
	le32(in, 7)
	le32(in[4:], 12)
	le32(in[8:], 131072)
	r := m.call(fInit, 0, in)
	if r.errno != 0 {
		select {
		case <-m.exited:
			return ended()
		case <-time.After(fuseWall):
		}
		panic("harness: mount failed: " + m.errb.String())
	}
	return m, Res{}
}

func (m *kmount) hangup() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.dead {
		m.dead = true
		syscall.Shutdown(m.fd, syscall.SHUT_RDWR)
	}
}

func (m *kmount) reader() {
	buf := make([]byte, 1<<20)
	for {
		n, err := syscall.Read(m.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if err != nil || n <= 0 {
			break
		}
		if n < 16 || binary.LittleEndian.Uint32(buf) != uint32(n) {
			m.mu.Lock()
			m.bogus = fmt.Sprintf("reply of %d bytes: %x", n, buf[:min(n, 32)])
			m.mu.Unlock()
			break
		}
		u := binary.LittleEndian.Uint64(buf[8:])
		m.mu.Lock()
		ch := m.pend[u]
		delete(m.pend, u)
		if ch == nil && u != 0 {
			m.bogus = fmt.Sprintf("second or unasked reply to request %d", u)
		}
		m.mu.Unlock()
		if ch != nil {
			ch <- kreply{int(-int32(binary.LittleEndian.Uint32(buf[4:]))), append([]byte{}, buf[16:n]...)}
		}
	}
	m.mu.Lock()
	m.dead = true
	for _, ch := range m.pend {
		ch <- kreply{errno: -1}
	}
	m.pend = map[uint64]chan kreply{}
	m.mu.Unlock()
}

// call sends a request and waits for the reply; errno -1 tells that the
// server is gone.
func (m *kmount) call(op uint32, node uint64, body []byte) kreply {
	noReply := op == fForget || op == fBatchForget
	ch := make(chan kreply, 1)
	m.mu.Lock()
	if m.dead {
		m.mu.Unlock()
		return kreply{errno: -1}
	}
	m.next++
	u := m.next
	if !noReply {
		m.pend[u] = ch
	}
	m.mu.Unlock()
	b := make([]byte, 40+len(body))
	le32(b, uint32(len(b)))
	le32(b[4:], op)
	le64(b[8:], u)
	le64(b[16:], node)
	le32(b[24:], 1000)
	le32(b[28:], 1000)
	le32(b[32:], 4242)
	copy(b[40:], body)
	for {
		_, err := syscall.Write(m.fd, b)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			m.mu.Lock()
			delete(m.pend, u)
			m.mu.Unlock()
			return kreply{errno: -1}
		}
		break
	}
	atomic.AddInt64(&m.sent, 1)
	if noReply {
		return kreply{}
	}
	select {
	case r := <-ch:
		return r
	case <-time.After(2 * time.Second):
	}
	// A slow machine, or a deadlock if it sleeps all the time.
	idle := 0
	for t := time.Now(); time.Since(t) < fuseWall; {
		select {
		case r := <-ch:
			return r
		case <-time.After(100 * time.Millisecond):
		}
		if asleep(m.cmd.Process.Pid) {
			idle++
		} else {
			idle = 0
		}
		if idle >= 200 {
			m.c.violated("no reply to FUSE request %d (%d so far) from a program that sleeps: %s", op, atomic.LoadInt64(&m.sent), m.errb.String())
			m.hangup()
			return kreply{errno: -1}
		}
	}
	panic("harness: inconclusive: no reply to FUSE request " + fmt.Sprint(op) + ": " + m.errb.String())
}

// kill ends the program at once.
func (m *kmount) kill() {
	syscall.Kill(-m.cmd.Process.Pid, syscall.SIGKILL)
	<-m.exited
	m.hangup()
	m.ln.Close()
}

// trouble reports a crash of the server.
func (m *kmount) trouble() string {
	m.mu.Lock()
	b := m.bogus
	m.mu.Unlock()
	if b != "" {
		return "protocol error: " + b
	}
	e := m.errb.String()
	for _, k := range []string{"panic: ", "fatal error: ", "SIGXCPU", "unexpected fault", "out of memory"} {
		if strings.Contains(e, k) {
			return e[:min(len(e), 4000)]
		}
	}
	select {
	case <-m.exited:
		return "the program ended: " + m.cmd.ProcessState.String() + "\n" + e[:min(len(e), 3000)]
	default:
	}
	return ""
}

// finish ends the mount as a user would and reports crashes.
func (m *kmount) finish(what string, gentle bool) {
	if t := m.trouble(); t != "" {
		m.c.violated("%s: the serving process crashed: %s", what, t)
		m.kill()
		return
	}
	m.c.count("fuse_requests", int(atomic.LoadInt64(&m.sent)))
	if gentle {
		syscall.Kill(m.cmd.Process.Pid, syscall.SIGTERM)
		select {
		case <-m.exited:
			m.c.count("clean_unmounts", 1)
			if ws := m.cmd.ProcessState.Sys().(syscall.WaitStatus); ws.Signaled() || ws.ExitStatus() != 0 && ws.ExitStatus() != 66 {
				m.c.violated("%s: unmounting ended with %v: %s", what, m.cmd.ProcessState, m.errb.String())
			}
		case <-time.After(fuseWall):
			m.kill()
			panic("harness: inconclusive: unmounting did not end: " + m.errb.String())
		}
	}
	m.kill()
}

type kattr struct {
	Ino, Size           uint64
	Atime, Mtime, Ctime int64
	An, Mn, Cn          uint32
	Mode, Nlink         uint32
	UID, GID, Rdev      uint32
}

func parseAttr(b []byte) kattr {
	u, w := binary.LittleEndian.Uint64, binary.LittleEndian.Uint32
	return kattr{Ino: u(b), Size: u(b[8:]), Atime: int64(u(b[24:])), Mtime: int64(u(b[32:])), Ctime: int64(u(b[40:])),
		An: w(b[48:]), Mn: w(b[52:]), Cn: w(b[56:]), Mode: w(b[60:]), Nlink: w(b[64:]), UID: w(b[68:]), GID: w(b[72:]), Rdev: w(b[76:])}
}

func cstr(s string) []byte { return append([]byte(s), 0) }

func (m *kmount) lookup(node uint64, name string) (id uint64, a kattr, errno int) {
	r := m.call(fLookup, node, cstr(name))
	if r.errno != 0 {
		return 0, a, r.errno
	}
	if len(r.data) < 128 {
		return 0, a, -2
	}
	id = binary.LittleEndian.Uint64(r.data)
	if id != 0 {
		m.looked(node, id)
	}
	return id, parseAttr(r.data[40:]), 0
}

func (m *kmount) forget(node, n uint64) {
	m.lkMu.Lock()
	if m.looks[node] <= n {
		delete(m.looks, node)
	} else {
		m.looks[node] -= n
	}
	m.lkMu.Unlock()
	m.rawForget(node, n)
}

func (m *kmount) rawForget(node, n uint64) {
	b := make([]byte, 8)
	le64(b, n)
	m.call(fForget, node, b)
}

func (m *kmount) getattr(node uint64, fh *uint64) (a kattr, errno int) {
	b := make([]byte, 16)
	if fh != nil {
		le32(b, 1)
		le64(b[8:], *fh)
	}
	r := m.call(fGetattr, node, b)
	if r.errno != 0 || len(r.data) < 104 {
		return a, r.errno
	}
	return parseAttr(r.data[16:]), 0
}

func (m *kmount) open(node uint64, flags uint32, dir bool) (fh uint64, errno int) {
	b := make([]byte, 8)
	le32(b, flags)
	op := uint32(fOpen)
	if dir {
		op = fOpendir
	}
	r := m.call(op, node, b)
	if r.errno != 0 || len(r.data) < 16 {
		return 0, r.errno
	}
	return binary.LittleEndian.Uint64(r.data), 0
}

func (m *kmount) release(node, fh uint64, dir bool) {
	b := make([]byte, 24)
	le64(b, fh)
	op := uint32(fRelease)
	if dir {
		op = fReleasedir
	}
	m.call(op, node, b)
}

func (m *kmount) read(node, fh, off uint64, n uint32) ([]byte, int) {
	b := make([]byte, 40)
	le64(b, fh)
	le64(b[8:], off)
	le32(b[16:], n)
	r := m.call(fRead, node, b)
	return r.data, r.errno
}

type kdirent struct {
	Name string
	Type uint32
	Node uint64 // readdirplus only
	Attr kattr
}

// readdir lists a directory with buffers of the given size.
func (m *kmount) readdir(node uint64, size uint32, plus bool) (out []kdirent, errno int) {
	fh, e := m.open(node, 0, true)
	if e != 0 {
		return nil, e
	}
	defer m.release(node, fh, true)
	off := uint64(0)
	for round := 0; ; round++ {
		b := make([]byte, 40)
		le64(b, fh)
		le64(b[8:], off)
		le32(b[16:], size)
		op := uint32(fReaddir)
		if plus {
			op = fReaddirplus
		}
		r := m.call(op, node, b)
		if r.errno != 0 {
			return nil, r.errno
		}
		d := r.data
		if len(d) == 0 {
			return out, 0
		}
		if round > 100000 || len(d) > int(size) {
			return out, -3
		}
		for len(d) > 0 {
			var x kdirent
			if plus {
				if len(d) < 152 {
					return out, -4
				}
				x.Node = binary.LittleEndian.Uint64(d)
				x.Attr = parseAttr(d[40:])
				d = d[128:]
			}
			if len(d) < 24 {
				return out, -4
			}
			off = binary.LittleEndian.Uint64(d[8:])
			n := binary.LittleEndian.Uint32(d[16:])
			x.Type = binary.LittleEndian.Uint32(d[20:])
			if len(d) < 24+int(n) {
				return out, -4
			}
			x.Name = string(d[24 : 24+n])
			if x.Node != 0 && x.Name != "." && x.Name != ".." {
				m.looked(node, x.Node)
			}
			step := (24 + int(n) + 7) &^ 7
			if step > len(d) {
				step = len(d)
			}
			d = d[step:]
			out = append(out, x)
		}
	}
}

func (m *kmount) readlink(node uint64) (string, int) {
	r := m.call(fReadlink, node, nil)
	return string(r.data), r.errno
}

// xattr reads an attribute, or the list of names for name "".
func (m *kmount) xattr(node uint64, name string, size uint32) (data []byte, need uint32, errno int) {
	b := make([]byte, 8)
	le32(b, size)
	op := uint32(fListxattr)
	if name != "" {
		op = fGetxattr
		b = append(b, cstr(name)...)
	}
	r := m.call(op, node, b)
	if r.errno != 0 {
		return nil, 0, r.errno
	}
	if size == 0 {
		if len(r.data) < 4 {
			return nil, 0, -2
		}
		return nil, binary.LittleEndian.Uint32(r.data), 0
	}
	return r.data, 0, 0
}
