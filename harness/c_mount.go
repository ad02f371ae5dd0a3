package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	checks["C34"] = checkDef{fn: checkC34, level: "fault_enumeration", min: 1500,
		rule: "lifecycles of the real mount command: every moment of a signal (while mounting, before and after the first request, idle, amid requests, while an unmount is retried), outside unmounts, refused unmounts and failing mounts; an evaluation is one observed fact of a lifecycle (still serving, lock held, ended, exit status, message, unmounted, lock free, metadata unchanged)"}
}

// lockState tells whether an exclusive and a shared lock of a file can be had.
func lockState(path string) (ex, sh bool) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	for _, how := range []int{syscall.LOCK_EX, syscall.LOCK_SH} {
		err := syscall.Flock(int(f.Fd()), how|syscall.LOCK_NB)
		if err == nil {
			syscall.Flock(int(f.Fd()), syscall.LOCK_UN)
		} else if err != syscall.EWOULDBLOCK {
			must(err)
		}
		if how == syscall.LOCK_EX {
			ex = err == nil
		} else {
			sh = err == nil
		}
	}
	return
}

// asleep tells whether no thread of a process of ours runs or wants to, and
// whether it has no children.
func asleep(pid int) bool {
	ts, err := filepath.Glob(fmt.Sprintf("/proc/%d/task/*", pid))
	if err != nil || len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		b, err := os.ReadFile(t + "/stat")
		if err != nil {
			return false
		}
		if k := bytes.LastIndexByte(b, ')'); k < 0 || k+2 >= len(b) || b[k+2] != 'S' {
			return false
		}
		if b, err = os.ReadFile(t + "/children"); err != nil || len(bytes.TrimSpace(b)) > 0 {
			return false
		}
	}
	return true
}

// ends waits for the end of the program. It hangs if it sleeps for long
// without anything under way.
func (m *kmount) ends() bool {
	idle := 0
	for n := 0; n < 1500; n++ {
		select {
		case <-m.exited:
			return true
		case <-time.After(100 * time.Millisecond):
		}
		if asleep(m.cmd.Process.Pid) {
			if idle++; idle >= 100 {
				return false
			}
		} else {
			idle = 0
		}
	}
	m.kill()
	panic("harness: inconclusive: the program does not end: " + m.errb.String())
}

const (
	endSignal  = iota
	endOutside // fusermount -u by someone else
	endBusy    // a signal, but the mounted view stays in use
)

var c34Moments = []string{"while mounting", "before the first request", "after the first request", "idle", "amid requests"}

func checkC34(c *Check) {
	c.par(c.pick(100, 2000), func(i int) {
		r := c.rng(i)
		s := c.makeSetup(fmt.Sprint("c", i), r, c.fuseOpts(r), i%4 == 0, true, nil)
		if s == nil {
			return
		}
		defer os.RemoveAll(s.dir)
		meta, err := os.ReadFile(s.meta)
		must(err)
		sum := sha256.Sum256(meta)
		for round := 0; round < 4; round++ {
			n := i*4 + round
			if n%16 == 15 {
				c.failedMount(r, s, fmt.Sprintf("case %d.%d", i, round))
			} else {
				c.lifecycle(r, s, n, fmt.Sprintf("case %d.%d", i, round))
			}
			b, err := os.ReadFile(s.meta)
			must(err)
			c.count("evaluations", 1)
			if sha256.Sum256(b) != sum {
				c.violated("case %d.%d: mounting changed the metadata", i, round)
			}
			if c.failed() {
				return
			}
		}
	})
}

func (c *Check) lifecycle(r *rand.Rand, s *setup, n int, what string) {
	end := []int{endSignal, endSignal, endOutside, endSignal, endBusy, endSignal, endOutside}[n%7]
	moment := n / 7 % len(c34Moments)
	if end == endOutside && moment < 2 {
		moment = 2 + r.Intn(3)
	}
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.Intn(2)]
	times := 1
	if r.Intn(3) == 0 {
		times += 1 + r.Intn(3)
	}
	deny := 0
	if end == endBusy {
		deny = -1
	} else if end == endSignal && r.Intn(2) == 0 {
		deny = 1 + r.Intn(4)
	}
	name := []string{fmt.Sprint("signal ", sig, " ", times, " times"), "unmount from outside", fmt.Sprint("signal ", sig, " while in use")}[end]
	what = fmt.Sprintf("%s: %s %s, %d unmounts refused", what, name, c34Moments[moment], deny)
	c.seen("case", end, moment, sig, times, deny)
	c.count("end_"+strings.ReplaceAll(strings.Fields(name)[0], " ", "_")+"_"+strings.ReplaceAll(c34Moments[moment], " ", "_"), 1)
	bad := func(format string, a ...any) { c.violated("%s: "+format, append([]any{what}, a...)...) }
	fact := func() { c.count("evaluations", 1) }

	args := []string{"--metadata", s.meta}
	if r.Intn(3) > 0 {
		args = append(args, s.img)
	}
	send := func(m *kmount) {
		for t := 0; t < times; t++ {
			syscall.Kill(m.cmd.Process.Pid, sig)
			if t+1 < times && r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
			}
		}
	}
	// Signals that mean nothing
	noise := func(m *kmount) {
		syscall.Kill(m.cmd.Process.Pid, []syscall.Signal{syscall.SIGWINCH, syscall.SIGCHLD, syscall.SIGURG, syscall.SIGCONT}[r.Intn(4)])
	}
	other := r.Intn(8) == 0
	if other { // another one serves the same all the time
		od := filepath.Join(s.dir, "other")
		must(os.MkdirAll(od, 0755))
		om := c.mustMount(what+": another mount", od, mountOpts{}, args...)
		if om == nil {
			return
		}
		c.count("second_mounts", 1)
		defer func() {
			fact()
			if _, errno := om.readdir(1, 4096, false); errno != 0 || om.trouble() != "" {
				bad("another mount of the same metadata stopped to serve: error %d: %s", errno, om.trouble())
			}
			if ex, _ := lockState(s.meta); ex {
				bad("while another one is still mounted, the metadata is not locked")
			}
			om.kill()
			c.lockFree(s, what+": after the last one", false)
		}()
	}
	o := mountOpts{deny: deny}
	if moment >= 2 {
		// It is still there until this succeeds
		var asking sync.Mutex
		over := false
		defer func() {
			asking.Lock()
			over = true
			asking.Unlock()
		}()
		o.asked = func(m *kmount) {
			asking.Lock()
			defer asking.Unlock()
			if over {
				return
			}
			m.mu.Lock()
			dead := m.dead
			m.mu.Unlock()
			if dead {
				return // unmounted from outside
			}
			fact()
			fact()
			c.count("requests_while_unmounting", 2)
			ents, e1 := m.readdir(1, 4096, false)
			id, _, e2 := m.lookup(1, "rescue")
			_, e3 := m.getattr(id, nil)
			if end != endOutside && (e1 != 0 || len(ents) < 2 || e2 != 0 || e3 != 0) {
				bad("while it tries to unmount, it does not serve: errors %d, %d, %d, %d entries in the root: %s", e1, e2, e3, len(ents), m.errb.String())
			}
			if ex, sh := lockState(s.meta); end != endOutside && (ex || !sh) {
				bad("while it tries to unmount, the metadata can be locked by writers: %v, by readers: %v", ex, sh)
			}
		}
	}
	switch moment {
	case 0:
		o.during = func(m *kmount) error { send(m); return nil }
	case 1:
		o.before = send
	}
	od := filepath.Join(s.dir, "m")
	must(os.MkdirAll(od, 0755))
	m, res := c.mount(od, o, args...)
	if m == nil {
		if moment > 1 {
			bad("mounting failed: %v", res)
		} else {
			bad("the program ended and left the mounted view behind: %v", res)
		}
		return
	}
	defer m.kill()
	serving := func() bool {
		fact()
		ents, errno := m.readdir(1, 4096, false)
		if errno != 0 || len(ents) < 2 || m.trouble() != "" {
			bad("it does not serve: error %d, %d entries in the root: %s", errno, len(ents), m.trouble())
			return false
		}
		return true
	}
	locked := func() bool {
		fact()
		if ex, sh := lockState(s.meta); ex || !sh {
			bad("while mounted, the metadata can be locked by writers: %v, by readers: %v", ex, sh)
			return false
		}
		return true
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	if moment >= 2 {
		if !serving() || !locked() {
			return
		}
	}
	if moment >= 3 {
		k := &kclient{c: c, m: m, v: s.v, what: what, quiet: true, imgSize: s.fs.Size, nodev: len(args) == 2}
		rt, ok := k.root()
		if !ok {
			return
		}
		k.treeWalk(r, rt)
		if k.stop.Load() {
			return
		}
		noise(m)
		if r.Intn(6) == 0 {
			fact()
			if x := c.run(runOpts{}, "ls", "--metadata", s.meta, "/"); x.Code != 0 {
				bad("ls beside it failed: %v", x)
				return
			}
		}
		if !serving() || !locked() {
			return
		}
	}
	if moment == 4 {
		var began sync.WaitGroup
		for cl := 0; cl < 1+r.Intn(8); cl++ {
			wg.Add(1)
			began.Add(1)
			rr := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				first := true
				for !stop.Load() {
					id, _, errno := m.lookup(1, "metadata")
					if errno == 0 {
						if fh, e := m.open(id, 0, false); e == 0 {
							b, e := m.read(id, fh, uint64(rr.Intn(1<<18)), uint32(1+rr.Intn(100000)))
							if e == 0 {
								c.count("bytes_read_meanwhile", len(b))
							}
							m.release(id, fh, false)
						}
					}
					c.count("requests_meanwhile", 4)
					if first {
						began.Done()
						first = false
					}
					if errno == -1 {
						return
					}
				}
			}()
		}
		began.Wait()
	}
	if end == endOutside {
		if r.Intn(2) == 0 {
			go send(m) // both at once
		}
		m.hangup()
	} else if moment >= 2 {
		send(m)
	}
	fact()
	if !m.ends() {
		m.mu.Lock()
		d, u := m.denied, m.unmounts
		m.mu.Unlock()
		bad("the program does not end (unmounts: %d refused, %d done): %s", d, u, m.errb.String())
		stop.Store(true)
		m.kill()
		wg.Wait()
		return
	}
	stop.Store(true)
	c.count("ended", 1)
	ws := m.cmd.ProcessState.Sys().(syscall.WaitStatus)
	msg := m.errb.String()
	for _, k := range []string{"panic: ", "fatal error: ", "goroutine "} {
		if strings.Contains(msg, k) {
			bad("it crashed: %s", msg)
		}
	}
	m.mu.Lock()
	denied, unmounts := m.denied, m.unmounts
	m.mu.Unlock()
	c.count("unmounts_refused", denied)
	fact()
	fact()
	switch end {
	case endBusy:
		if ws.Signaled() || ws.ExitStatus() == 0 {
			bad("the mounted view could not be unmounted (%d attempts), but the program ended with %v: %s", denied, m.cmd.ProcessState, msg)
		} else if !strings.Contains(msg, "busy") {
			bad("it does not tell why it could not unmount: %q", msg)
		}
		if denied == 0 {
			bad("it ended without an attempt to unmount: %s", msg)
		}
	case endSignal:
		if unmounts != 1 {
			bad("the mounted view was unmounted %d times: %v: %s", unmounts, m.cmd.ProcessState, msg)
		}
		fallthrough
	case endOutside:
		if ws.Signaled() || ws.ExitStatus() != 0 {
			bad("it ended with %v: %s", m.cmd.ProcessState, msg)
		}
	}
	m.kill()
	wg.Wait()
	c.lockFree(s, what, other)
}

// lockFree looks whether the metadata is free for writers after its user
// ended; another mount may still be there.
func (c *Check) lockFree(s *setup, what string, other bool) {
	c.count("evaluations", 1)
	ex, sh := lockState(s.meta)
	// The kernel may take a moment to tear an ended process down.
	for t := 0; t < 200 && !ex && !other; t++ {
		time.Sleep(50 * time.Millisecond)
		ex, sh = lockState(s.meta)
	}
	if !sh || ex == other {
		c.violated("%s: afterwards, the metadata can be locked by writers: %v, by readers: %v", what, ex, sh)
	}
}

// failedMount mounts where that does not work.
func (c *Check) failedMount(r *rand.Rand, s *setup, what string) {
	od := filepath.Join(s.dir, "f")
	must(os.MkdirAll(od, 0755))
	o := mountOpts{}
	kind := []string{"refused", "no mount point", "mount point is a file", "no fusermount"}[r.Intn(4)]
	switch kind {
	case "refused":
		o.during = func(*kmount) error { return errors.New("no") }
	case "no mount point":
		o.mp = filepath.Join(od, "missing")
	case "mount point is a file":
		o.mp = filepath.Join(od, "file")
		must(os.WriteFile(o.mp, []byte("x"), 0644))
	case "no fusermount":
		if _, err := os.Stat("/bin/fusermount"); err == nil {
			return // the library would find that one
		}
		o.nofm = true
	}
	c.seen("case", kind)
	c.count("failed_mounts", 1)
	m, res := c.mount(od, o, "--metadata", s.meta, s.img)
	c.count("evaluations", 3)
	if m != nil {
		c.violated("%s: %s, but mounting works", what, kind)
		m.kill()
		return
	}
	if res.Sig != 0 || res.Code == 0 || res.Code == 2 {
		c.violated("%s: %s, but mounting ended with %v", what, kind, res)
	} else if len(bytes.TrimSpace(res.Err)) == 0 {
		c.violated("%s: %s, but there is no message", what, kind)
	}
	c.lockFree(s, what+": "+kind, false)
}
