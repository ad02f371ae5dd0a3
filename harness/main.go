package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type checkDef struct {
	fn     func(c *Check)
	level  string
	rule   string
	min    int64 // fewest evaluations of a conclusive run
	cpu    int   // CPU seconds the in-process part may take (quick)
	assume []string
}

var checks = map[string]checkDef{}

func main() {
	if dispatchFusermount() {
		return
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: harness ID")
		os.Exit(2)
	}
	id := os.Args[1]
	d, ok := checks[id]
	if !ok {
		fmt.Println("no such check:", id)
		os.Exit(2)
	}
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(parent(id, d))
	}
	c := &Check{ID: id, counts: map[string]int64{}, distinct: map[string]map[uint64]bool{}, start: time.Now(),
		Bin: os.Getenv("VERIF_BIN"), BinRace: os.Getenv("VERIF_BIN_RACE"), Scratch: os.Getenv("VERIF_SCRATCH"),
		Thorough: os.Getenv("VERIF_TIER") == "thorough", rule: d.rule, level: d.level, assume: d.assume, only: -1}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c.free0 = c.diskFree()
	if s := os.Getenv("VERIF_ONLY"); s != "" {
		c.only, _ = strconv.Atoi(s)
		d.min = 0
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s, is := p.(refusal); is {
					c.violated("%s", s)
					return
				}
				panic(p)
			}
		}()
		d.fn(c)
	}()
	os.Exit(c.finish(os.Getenv("VERIF_ROOT"), d.min))
}

// parent runs the check in a child process, so that a crash of the code under
// test that cannot be recovered from (a fatal runtime error, a data race, an
// endless loop) is observed and reported as well.
func parent(id string, d checkDef) int {
	self, err := os.Executable()
	must(err)
	root := os.Getenv("VERIF_ROOT")
	cpu := d.cpu
	if cpu == 0 {
		cpu = 1500
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		cpu *= 40
	}
	cmd := exec.Command("/bin/sh", "-c", fmt.Sprintf(`ulimit -t %d; exec "$@"`, cpu), "sh", self, id)
	var er bytes.Buffer
	racelog := filepath.Join(os.Getenv("VERIF_SCRATCH"), "race")
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GORACE=halt_on_error=0 exitcode=66 log_path="+racelog, "GOTRACEBACK=all")
	var out bytes.Buffer
	cmd.Stdout = io.MultiWriter(os.Stdout, &out)
	cmd.Stderr = io.MultiWriter(os.Stderr, &limitW{b: &er, max: 4 << 20})
	err = cmd.Run()
	races := raceReports(racelog)
	code := cmd.ProcessState.ExitCode()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if code == 1 && strings.Contains(out.String(), "VIOLATION property=") {
		return 1
	}
	report := func(text string) int {
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		rp := filepath.Join(root, "evidence", "replay-"+id+".txt")
		os.WriteFile(rp, []byte(fmt.Sprintf("Reproduce: VERIF_SEED=%s VERIF_TIER=%s /verif/run.sh %s\n\n%s\n", os.Getenv("VERIF_SEED"), os.Getenv("VERIF_TIER"), id, text)), 0644)
		if _, err := os.Stat(filepath.Join(root, "evidence", id+".json")); err != nil || code != 0 && code != 66 {
			seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
			tier := os.Getenv("VERIF_TIER")
			if tier != "thorough" {
				tier = "quick"
			}
			writeJSON(filepath.Join(root, "evidence", id+".json"), map[string]any{"property": id, "tier": tier, "seed": seed, "level": d.level,
				"coverage": map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": d.rule, "samples": []any{"the check's process ended abnormally"}}, "wall_s": 0, "violations": 1})
		}
		if len(text) > 3000 {
			text = text[:3000]
		}
		fmt.Println(text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if len(races) > 0 {
		return report("data race in the code under test:\n" + strings.Join(races, "\n"))
	}
	if code == 0 || code == 66 {
		return 0
	}
	es := er.String()
	if strings.Contains(es, "harness: ") && strings.Contains(es, "panic: ") {
		return 2
	}
	if (strings.Contains(es, "fatal error: ") || strings.Contains(es, "panic: ") || strings.Contains(es, "SIGXCPU")) && strings.Contains(es, "blichmann.eu/code/btrfscue/") {
		if strings.Contains(es, "SIGXCPU") {
			return report(fmt.Sprintf("endless computation in the code under test (more than %d CPU seconds):\n%s", cpu, es))
		}
		if crashInRepo(es) {
			return report("crash in the code under test:\n" + es)
		}
	}
	fmt.Printf("%s: error: the check ended with code %d signal %v (%v)\n", id, code, ws.Signal(), err)
	return 2
}

// crashInRepo looks at the stack of the goroutine that crashed.
func crashInRepo(es string) bool {
	i := strings.Index(es, "[running]:")
	if i < 0 {
		return strings.Contains(es, "concurrent map")
	}
	return panicInRepo(es[i:])
}

// raceReports returns the race reports that have a frame in the code under
// test.
func raceReports(prefix string) []string {
	files, _ := filepath.Glob(prefix + ".*")
	var out []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "DATA RACE") && strings.Contains(blk, "blichmann.eu/code/btrfscue") {
				out = append(out, blk)
			}
		}
	}
	return out
}
