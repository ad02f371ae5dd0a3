package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

// refusal is a panic for something valid that the code under test refused.
type refusal string

// Check is the running check: it collects observations and violations.
type Check struct {
	ID       string
	Seed     int64
	Thorough bool
	Scratch  string // scratch folder, removed at the end
	Bin      string // the btrfscue program
	BinRace  string // the same with the race detector, if built

	free0 uint64 // disk space at the start

	mu       sync.Mutex
	counts   map[string]int64
	distinct map[string]map[uint64]bool
	samples  []any
	viol     []string
	start    time.Time
	rule     string
	level    string
	assume   []string
	only     int
}

func (c *Check) count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// seen records a distinct observation of a kind.
func (c *Check) seen(kind string, what ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, what...)
	c.mu.Lock()
	if c.distinct[kind] == nil {
		c.distinct[kind] = map[uint64]bool{}
	}
	c.distinct[kind][h.Sum64()] = true
	c.mu.Unlock()
}

func (c *Check) sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// rng returns the generator of case n of a check.
func (c *Check) rng(n int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, c.ID, "/", c.Seed, "/", n)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// pick chooses by tier.
func (c *Check) pick(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

func (c *Check) violated(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) < 50 {
		s := printable(fmt.Sprintf(format, a...))
		if len(s) > 6000 {
			s = strings.ToValidUTF8(s[:6000], "") + "..."
		}
		c.viol = append(c.viol, s)
	}
}

// printable replaces what is no text: names on an image may be any bytes.
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r == 0x7f || r == 0xfffd {
			return '?'
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
}

// finding reports a defect that known_findings.txt may list under the name. A
// listed one is no violation.
func (c *Check) finding(name, format string, a ...any) {
	what := printable(fmt.Sprintf(format, a...))
	b, _ := os.ReadFile(filepath.Join(os.Getenv("VERIF_ROOT"), "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, fmt.Sprintf("finding: property=%s id=%s ", c.ID, name)) {
			fmt.Printf("KNOWN-FINDING: property=%s id=%s %s\n", c.ID, name, what)
			c.count("known_findings_seen", 1)
			return
		}
	}
	c.violated("%s", what)
}

func (c *Check) failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) > 0
}

// guard runs fn and turns a panic below the code under test into a violation.
// Panics of the harness itself pass on.
func (c *Check) guard(what string, fn func()) (ok bool) {
	ok = true
	defer func() {
		if p := recover(); p != nil {
			if s, is := p.(string); is && strings.HasPrefix(s, "harness:") {
				panic(p)
			}
			if s, is := p.(refusal); is {
				ok = false
				c.violated("%s: %s", what, s)
				return
			}
			st := string(debug.Stack())
			if !panicInRepo(st) {
				panic(fmt.Sprintf("harness: %v\n%s", p, st))
			}
			ok = false
			c.violated("%s: panic: %v\n%s", what, p, trimStack(st))
		}
	}()
	fn()
	return
}

// panicInRepo tells whether the innermost non-runtime frame below the panic
// that is not of a library belongs to the code under test.
func panicInRepo(st string) bool {
	i := strings.LastIndex(st, "\npanic(")
	if i >= 0 {
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "blichmann.eu/code/btrfscue/") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func trimStack(st string) string {
	if len(st) > 3000 {
		return st[:3000]
	}
	return st
}

// par runs fn(0..n-1) on several workers.
func (c *Check) par(n int, fn func(i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	var pmu sync.Mutex
	var pv any
	for ; w > 0; w-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if c.only >= 0 && i != c.only {
					continue
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							st := string(debug.Stack())
							if s, is := p.(refusal); is {
								c.violated("case %d: %s\n%s", i, s, trimStack(st))
								return
							}
							if s, is := p.(string); !(is && strings.HasPrefix(s, "harness:")) && panicInRepo(st) {
								c.violated("case %d: panic: %v\n%s", i, p, trimStack(st))
								return
							}
							pmu.Lock()
							if pv == nil {
								pv = fmt.Sprintf("harness: case %d: %v\n%s", i, p, debug.Stack())
							}
							pmu.Unlock()
						}
					}()
					fn(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if pv != nil && !c.failed() { // What was seen before stands
		panic(pv)
	}
}

// dir returns a new scratch folder.
func (c *Check) dir(name string) string {
	d := filepath.Join(c.Scratch, name)
	must(os.MkdirAll(d, 0755))
	return d
}

// Res is the outcome of a run of the program.
type Res struct {
	Args   []string
	Code   int // exit code, -1 if signalled
	Sig    syscall.Signal
	Out    []byte
	Err    []byte
	Killed bool // by the generous wall-clock watchdog: inconclusive
	CPU    time.Duration
}

func (r Res) String() string {
	e := r.Err
	if len(e) > 2500 {
		e = append(append([]byte{}, e[:1500]...), e[len(e)-1000:]...)
	}
	o := r.Out
	if len(o) > 800 {
		o = o[:800]
	}
	return fmt.Sprintf("btrfscue %s\nexit %d signal %v\nstdout: %s\nstderr: %s", strings.Join(r.Args, " "), r.Code, r.Sig, o, e)
}

// crash tells whether the run ended by a crash rather than with an error.
func (r Res) crash() string {
	e := string(r.Err)
	for _, m := range []string{"SIGXCPU", "panic: ", "fatal error: ", "unexpected fault address", "out of memory", "stack overflow", "DATA RACE"} {
		if strings.Contains(e, m) {
			return m
		}
	}
	if r.Sig != 0 && !r.Killed {
		return "signal " + r.Sig.String()
	}
	if r.Code != 0 && r.Code != 1 && !r.Killed {
		return "exit code " + strconv.Itoa(r.Code)
	}
	return ""
}

type runOpts struct {
	dir    string
	env    []string
	uid    int // run as this user
	bin    string
	cpu    int // CPU seconds
	memMB  int // address space, 0 = no limit
	dataMB int // writable memory, 0 = no limit
	wall   time.Duration
	stdin  io.Reader
	prefix []string // e.g. strace
}

// diskMax is much more than all files written at the same time need. The
// scratch directory may be in memory.
const diskMax = 8 << 30

func (c *Check) diskFree() uint64 {
	var st syscall.Statfs_t
	must(syscall.Statfs(c.Scratch, &st))
	return st.Bavail * uint64(st.Bsize)
}

// procTime is the processor time a process took. That spent in a filesystem on
// disk says nothing about the process.
func (c *Check) procTime(ps *os.ProcessState) time.Duration {
	if !strings.HasPrefix(c.Scratch, "/dev/shm/") {
		return ps.UserTime()
	}
	return ps.UserTime() + ps.SystemTime()
}

// watchDisk ends a process that would fill the disk.
func (c *Check) watchDisk(pid int, ended chan struct{}) bool {
	for {
		select {
		case <-ended:
			return false
		case <-time.After(50 * time.Millisecond):
		}
		if now := c.diskFree(); now < c.free0 && c.free0-now > diskMax {
			syscall.Kill(-pid, syscall.SIGKILL)
			return true
		}
	}
}

// run runs the program under resource limits.
func (c *Check) run(o runOpts, args ...string) Res {
	bin := o.bin
	if bin == "" {
		bin = c.Bin
	}
	if o.cpu == 0 {
		o.cpu = 60
	}
	lim := fmt.Sprintf("ulimit -t %d; ulimit -c 0;", o.cpu)
	if o.memMB > 0 {
		lim += fmt.Sprintf(" ulimit -v %d;", o.memMB*1024)
	}
	if o.dataMB > 0 {
		lim += fmt.Sprintf(" ulimit -d %d;", o.dataMB*1024)
	}
	full := append([]string{"-c", lim + ` exec "$@"`, "sh"}, o.prefix...)
	full = append(append(full, bin), args...)
	cmd := exec.Command("/bin/sh", full...)
	cmd.Dir = o.dir
	if cmd.Dir == "" {
		cmd.Dir = c.Scratch
	}
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + c.Scratch, "TZ=UTC", "LANG=C"}, o.env...)
	cmd.Stdin = o.stdin
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limitW{b: &out, max: 256 << 20}, &limitW{b: &er, max: 16 << 20}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if o.uid == 0 && len(o.prefix) == 0 && len(args) > 1 && args[0] == "recover" {
		// What keeps recover inside its destination may be broken, so the
		// user it runs as can write nowhere else.
		o.uid = nobody
		dst := ""
		for _, a := range args[1:] {
			if !strings.HasPrefix(a, "-") {
				dst = a
			}
		}
		c.giveAway(dst)
	}
	if o.uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(o.uid), Gid: uint32(o.uid)}
	}
	must(cmd.Start())
	wall := o.wall
	if wall == 0 {
		wall = 240 * time.Second
	}
	killed := false
	var kmu sync.Mutex
	t := time.AfterFunc(wall, func() {
		kmu.Lock()
		killed = true
		kmu.Unlock()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	ended := make(chan struct{})
	filled := make(chan bool)
	go func() { filled <- c.watchDisk(cmd.Process.Pid, ended) }()
	cmd.Wait()
	close(ended)
	t.Stop()
	if <-filled {
		c.violated("a command that fills the disk was ended: %v", args)
	}
	kmu.Lock()
	defer kmu.Unlock()
	res := Res{Args: args, Out: out.Bytes(), Err: er.Bytes(), Killed: killed, CPU: c.procTime(cmd.ProcessState)}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		res.Code, res.Sig = -1, ws.Signal()
	} else {
		res.Code = ws.ExitStatus()
	}
	if killed {
		panic("harness: inconclusive: wall-clock watchdog ended " + res.String())
	}
	c.count("program_runs", 1)
	return res
}

// giveAway lets nobody write below dst, or create it.
func (c *Check) giveAway(dst string) {
	if !strings.HasPrefix(dst, c.Scratch+"/") {
		return
	}
	if _, err := os.Lstat(dst); err == nil {
		chownAll(dst, nobody)
		return
	}
	for d := filepath.Dir(dst); d != c.Scratch; d = filepath.Dir(d) {
		if _, err := os.Lstat(d); err == nil {
			must(os.Lchown(d, nobody, nobody))
			return
		}
	}
}

// cli runs a command and reports any crash as a violation.
func (c *Check) cli(o runOpts, args ...string) Res {
	r := c.run(o, args...)
	if k := r.crash(); k != "" {
		c.violated("the command crashed (%s): %v", k, r)
	}
	return r
}

type limitW struct {
	b   *bytes.Buffer
	max int
}

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func (c *Check) evidence() map[string]any {
	cov := map[string]any{"rule": c.rule, "samples": c.samples}
	names := []string{}
	for k := range c.counts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		cov[k] = c.counts[k]
	}
	for k, m := range c.distinct {
		if k == "case" {
			cov["distinct_nontrivial"] = len(m)
		} else {
			cov["distinct_"+k] = len(m)
		}
	}
	if _, ok := cov["evaluations"]; !ok {
		cov["evaluations"] = 0
	}
	if _, ok := cov["distinct_nontrivial"]; !ok {
		cov["distinct_nontrivial"] = 0
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	if c.assume == nil {
		c.assume = []string{}
	}
	return map[string]any{"property": c.ID, "tier": tier, "seed": c.Seed, "level": c.level, "coverage": cov,
		"assumptions": c.assume, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol)}
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.WriteFile(path, append(b, '\n'), 0644))
}

// finish writes evidence and replay and prints the verdict. It returns the
// exit code.
func (c *Check) finish(root string, minEval int64) int {
	must(os.MkdirAll(filepath.Join(root, "evidence"), 0755))
	writeJSON(filepath.Join(root, "evidence", c.ID+".json"), c.evidence())
	if len(c.viol) > 0 {
		rp := filepath.Join(root, "evidence", "replay-"+c.ID+".txt")
		var b bytes.Buffer
		tier := "quick"
		if c.Thorough {
			tier = "thorough"
		}
		fmt.Fprintf(&b, "Reproduce: VERIF_SEED=%d VERIF_TIER=%s /verif/run.sh %s\n", c.Seed, tier, c.ID)
		for i, v := range c.viol {
			fmt.Fprintf(&b, "\n--- %d\n%s\n", i+1, v)
		}
		must(os.WriteFile(rp, b.Bytes(), 0644))
		first := c.viol[0]
		if len(first) > 1500 {
			first = first[:1500]
		}
		fmt.Println(first)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
		return 1
	}
	if c.counts["evaluations"] < minEval {
		fmt.Printf("%s: inconclusive: only %d evaluations observed, at least %d expected\n", c.ID, c.counts["evaluations"], minEval)
		return 2
	}
	fmt.Printf("%s: held on %d evaluations, %d distinct\n", c.ID, c.counts["evaluations"], len(c.distinct["case"]))
	return 0
}
