package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

func init() {
	checks["C33"] = checkDef{fn: checkC33, level: "exploration", min: 300,
		rule: "scans (also refused and killed ones) and readers of one metadata file started at the same time by the real program, with system calls delayed, and sessions of the index package on threads of one process; their recorded starts, ends and observed records are checked for an order one after another (all or nothing of each scan, real-time order, one chain of states); an evaluation is one observation, distinct by the set of scans it saw"}
}

// session is one writer in a recorded history.
type session struct {
	start, end time.Duration
	ended, ok  bool // ended by itself; reported success
	killed     bool
	recs       c28state
	mark       recKey // a record that only this one writes
}

// observation is what one reader saw.
type observation struct {
	who        string
	start, end time.Duration
	failed     bool
	keys       map[recKey]bool
	data       c28state // nil if only the keys are known
	last       int      // session that wrote the shared record, -1 none
	hasLast    bool
	set        map[int]bool
}

func setString(m map[int]bool) string {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

func subsetInt(a, b map[int]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// checkOrder looks for contradictions to the sessions and observations having
// happened one after another. base is what was there before.
func (c *Check) checkOrder(what string, base c28state, ss []*session, obs []*observation, shared *recKey) {
	for _, o := range obs {
		c.count("evaluations", 1)
		if o.failed {
			// Nothing may have been there yet, at least in part of the time.
			for i, s := range ss {
				if base != nil || s.ended && s.ok && s.end < o.start {
					c.violated("%s: %s failed although the metadata was there (scan %d done, or before all): %+v", what, o.who, i, o)
					return
				}
			}
			c.count("readers_before_the_first_scan", 1)
			continue
		}
		o.set = map[int]bool{}
		for i, s := range ss {
			if o.keys[s.mark] {
				o.set[i] = true
			}
		}
		want := map[recKey]bool{}
		for k := range base {
			want[k] = true
		}
		for i := range o.set {
			for k := range ss[i].recs {
				want[k] = true
			}
		}
		if shared != nil && len(o.set) > 0 {
			want[*shared] = true
		}
		for k := range want {
			if !o.keys[k] {
				c.violated("%s: %s saw a part of the scans %s only: record %d %v @%d is missing", what, o.who, setString(o.set), k.Owner, k.Key, k.Gen)
				return
			}
		}
		for k := range o.keys {
			if !want[k] {
				c.violated("%s: %s saw the scans %s, but also record %d %v @%d", what, o.who, setString(o.set), k.Owner, k.Key, k.Gen)
				return
			}
		}
		if o.data != nil {
			for i := range o.set {
				for k, v := range ss[i].recs {
					if !bytes.Equal(o.data[k], v) {
						c.violated("%s: %s saw record %d %v @%d of scan %d with other data", what, o.who, k.Owner, k.Key, k.Gen, i)
						return
					}
				}
			}
		}
		for i, s := range ss {
			if s.ended && s.ok && s.end < o.start && !o.set[i] {
				c.violated("%s: %s started after scan %d had succeeded, but does not show it (it shows %s)", what, o.who, i, setString(o.set))
				return
			}
			if o.set[i] && s.start > o.end {
				c.violated("%s: %s shows scan %d, which started later", what, o.who, i)
				return
			}
			if o.set[i] && s.ended && !s.ok && !s.killed {
				c.violated("%s: %s shows scan %d, which was refused", what, o.who, i)
				return
			}
		}
		if o.hasLast {
			if o.last >= 0 && !o.set[o.last] || o.last < 0 && len(o.set) > 0 {
				c.violated("%s: %s shows the sessions %s, but the shared record of session %d", what, o.who, setString(o.set), o.last)
				return
			}
			for i := range o.set {
				if l := o.last; i != l && ss[l].ended && ss[l].end < ss[i].start {
					c.violated("%s: %s shows the sessions %s and the shared record of session %d, which session %d overwrote later", what, o.who, setString(o.set), l, i)
					return
				}
			}
		}
		c.seen("case", what, setString(o.set))
		c.seen("states", setString(o.set))
	}
	for _, a := range obs {
		for _, b := range obs {
			if a.failed || b.failed {
				continue
			}
			if !subsetInt(a.set, b.set) && !subsetInt(b.set, a.set) {
				c.violated("%s: %s shows the scans %s and %s shows %s, which cannot both have been the state", what, a.who, setString(a.set), b.who, setString(b.set))
				return
			}
			if a.end < b.start && !subsetInt(a.set, b.set) {
				c.violated("%s: %s showed the scans %s, and %s, started later, only %s", what, a.who, setString(a.set), b.who, setString(b.set))
				return
			}
		}
	}
	c.count("histories", 1)
}

func checkC33(c *Check) {
	c.par(c.pick(28, 400), func(i int) { c.concProcesses(i) })
	c.par(c.pick(24, 400), func(i int) { c.concThreads(1000 + i) })
	c.par(c.pick(24, 300), func(i int) { c.concFirst(2000 + i) })
	c.par(2, func(i int) { c.concLong(3000 + i) })
}

// stuck turns the wall-clock watchdog's panic into a violation: the processes
// of these cases need hardly any time of their own.
func (c *Check) stuck(what string) {
	if p := recover(); p != nil {
		if strings.Contains(fmt.Sprint(p), "wall-clock") {
			c.violated("%s: did not end while others use the metadata file: %v", what, p)
			return
		}
		panic(fmt.Sprintf("harness: %s: %v", what, p))
	}
}

func (c *Check) concProcesses(i int) {
	r := c.rng(i)
	bs := blockSizes[r.Intn(3)]
	d := c.dir(fmt.Sprint("c", i))
	defer os.RemoveAll(d)
	fs := newFS(r, bs, sizeFor(r, bs, 1))
	generate(fs, genOpts{entries: 10 + r.Intn(30), subvols: 1, gens: 2, xattrs: true, specials: true})
	common := len(fs.Log)
	n := 2 + r.Intn(4)
	used := map[recKey]bool{}
	var ss []*session
	var paths []string
	for k := 0; k < n; k++ {
		own := len(fs.Log)
		for len(fs.Log) == own || len(fs.Log[own].Items) == 0 {
			fs.Log = fs.Log[:own]
			fs.customLeaf(fs.slot(), used)
		}
		leaves := []int{own}
		for j := 0; j < common; j++ {
			if r.Intn(3) == 0 {
				leaves = append(leaves, j)
			}
		}
		if r.Intn(4) == 0 { // More than one transaction
			for m := 0; m < 11000; {
				fs.customLeaf(fs.slot(), used)
				leaves = append(leaves, len(fs.Log)-1)
				m += len(fs.Log[len(fs.Log)-1].Items)
			}
		}
		p := filepath.Join(d, fmt.Sprint("img", k))
		fs.writeImage(p, imgOpts{leaves: leaves, skipData: true})
		it := fs.Log[own].Items[0]
		ss = append(ss, &session{recs: wantState(fs.records(leaves)), mark: recKey{it.Owner, it.Key, it.Gen}})
		paths = append(paths, p)
	}
	meta := filepath.Join(d, "meta")
	var base c28state
	if r.Intn(2) == 0 {
		base = wantState(fs.records([]int{0, 1}))
		p := filepath.Join(d, "img")
		fs.writeImage(p, imgOpts{leaves: []int{0, 1}, skipData: true})
		if !c.recon(bs, fs.FSID, meta, p) {
			return
		}
	}
	what := fmt.Sprintf("case %d (%d scans, metadata before: %v)", i, n, base != nil)
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	var wg sync.WaitGroup
	var mu sync.Mutex
	var obs []*observation
	// Delays of the calls around which another process can get in between
	slow := func(w int) []string {
		rr := c.rng(i*100 + w)
		if rr.Intn(2) == 0 {
			return nil
		}
		call := []string{"flock", "pwrite64", "fdatasync", "openat", "mmap", "close", "ftruncate"}[rr.Intn(7)]
		c.count("processes_with_delayed_calls", 1)
		return []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call, "-e",
			fmt.Sprintf("inject=%s:delay_exit=%d:when=%d..%d", call, 5000+rr.Intn(60000), 1+rr.Intn(6), 7+rr.Intn(5))}
	}
	delay := func(w int) time.Duration { return time.Duration(c.rng(i*100+w+50).Intn(90)) * time.Millisecond }
	for k := range ss {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer c.stuck(what)
			s := ss[k]
			time.Sleep(delay(k))
			o := runOpts{cpu: 120, prefix: slow(k)}
			if i%3 == 2 && k == 0 { // killed on the way
				o.prefix = []string{"timeout", "-s", "KILL", fmt.Sprintf("%.3f", 0.005+float64(c.rng(i*7).Intn(150))/1000)}
				s.killed = true
			}
			st := now()
			mu.Lock()
			s.start = st
			mu.Unlock()
			res := c.run(o, reconArgs(bs, fs.FSID, meta, paths[k])...)
			mu.Lock()
			s.end, s.ended, s.ok = now(), true, res.Code == 0
			if s.ok {
				s.killed = false
			}
			mu.Unlock()
			if res.Code != 0 && !s.killed {
				c.violated("%s: scan %d of a valid image failed: %v", what, k, res)
			}
		}(k)
	}
	refused := r.Intn(3)
	if base == nil {
		refused = 0 // One of them could be the first, which creates the file
	}
	for w := 0; w < refused; w++ {
		wg.Add(1)
		bad := fs.FSID
		bad[r.Intn(16)] ^= 4
		go func(w int) {
			defer wg.Done()
			defer c.stuck(what)
			time.Sleep(delay(w + 20))
			res := c.run(runOpts{cpu: 120, prefix: slow(w + 20)}, reconArgs(bs, bad, meta, paths[0])...)
			if res.Code == 0 {
				c.violated("%s: a scan for another filesystem id was not refused: %v", what, res)
			}
		}(w)
	}
	for w := 0; w < 3+r.Intn(4); w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer c.stuck(what)
			time.Sleep(delay(w + 30))
			for k := 0; k < 3; k++ {
				o := &observation{who: fmt.Sprintf("reader %d.%d", w, k), start: now(), keys: map[recKey]bool{}}
				var res Res
				if (w+k)%3 == 2 {
					if _, err := os.Stat(meta); err != nil {
						continue
					}
					ix, err := index.OpenReadOnly(meta)
					if o.failed = err != nil; !o.failed {
						ix.Close()
						o.data, _ = c.readIndex(what+": "+o.who, meta)
						for rk := range o.data {
							o.keys[rk] = true
						}
					}
				} else {
					res = c.run(runOpts{cpu: 120, prefix: slow(w*3 + k + 30)}, "dump-index", "--metadata", meta)
					if k := res.crash(); k != "" {
						c.violated("%s: a reader crashed (%s): %v", what, k, res)
						return
					}
					o.failed = res.Code != 0
					recs, _, err := parseDump(res.Out)
					if err != nil {
						c.violated("%s: %s: %v", what, o.who, err)
						return
					}
					for _, rk := range recs {
						if o.keys[rk] {
							c.violated("%s: %s printed record %v twice", what, o.who, rk)
						}
						o.keys[rk] = true
					}
				}
				o.end = now()
				mu.Lock()
				obs = append(obs, o)
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	if c.failed() {
		return
	}
	// A killed scan of several transactions may be there in part.
	for _, s := range ss {
		if s.killed {
			c.count("killed_scans", 1)
			if len(s.recs) > 10000 {
				return
			}
		}
	}
	fin, ok := c.readIndex(what+" at the end", meta)
	if !ok {
		return
	}
	o := &observation{who: "the final state", start: now(), end: now(), keys: map[recKey]bool{}, data: fin}
	for rk := range fin {
		o.keys[rk] = true
	}
	obs = append(obs, o)
	c.checkOrder(what, base, ss, obs, nil)
	c.count("scans_at_the_same_time", n)
	c.count("refused_scans_at_the_same_time", refused)
	if i < 2 {
		var sets []string
		for _, o := range obs {
			sets = append(sets, setString(o.set))
		}
		c.sample(map[string]any{"scans": n, "states seen by readers": sets})
	}
}

func (c *Check) concThreads(i int) {
	r := c.rng(i)
	d := c.dir(fmt.Sprint("t", i))
	defer os.RemoveAll(d)
	path := filepath.Join(d, "meta")
	fsid := uuid.UUID{byte(i), 1}
	opts := func() *index.Options {
		return &index.Options{BlockSize: 4096, FSID: fsid, Generation: ^uint64(0)}
	}
	what := fmt.Sprintf("case %d (threads)", i)
	nw := 2 + r.Intn(3)
	per := 3
	shared := recKey{9, Key{9, tInodeRef, 9}, 9}
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	var mu sync.Mutex
	var ss []*session
	var obs []*observation
	for k := 0; k < nw*per; k++ {
		s := &session{recs: c28state{}, mark: recKey{uint64(100 + k), Key{1, tInodeRef, 0}, 5}}
		for j := uint64(0); j < uint64(1+r.Intn(40)); j++ {
			s.recs[recKey{uint64(100 + k), Key{1 + j, tInodeRef, 0}, 5}] = []byte(fmt.Sprint("session ", k, " ", j))
		}
		s.recs[s.mark] = []byte("mark")
		if r.Intn(12) == 0 { // across transactions
			for j := uint64(0); j < 10200; j++ {
				s.recs[recKey{uint64(100 + k), Key{1000 + j, tInodeRef, 0}, 5}] = []byte{1}
			}
		}
		ss = append(ss, s)
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rr := c.rng(i*50 + w)
			c.guard(what, func() {
				for k := 0; k < per; k++ {
					time.Sleep(time.Duration(rr.Intn(60)) * time.Millisecond)
					id := w*per + k
					s := ss[id]
					mu.Lock()
					s.start = now()
					mu.Unlock()
					ix, err := index.Open(path, 0644, opts())
					if err != nil {
						c.violated("%s: opening for writing failed: %v", what, err)
						return
					}
					put := func(k recKey, v []byte) {
						mustInsert(ix, Rec{Owner: k.Owner, Key: k.Key, Gen: k.Gen, Data: v})
					}
					n := 0
					for k, v := range s.recs {
						put(k, v)
						n++
						if rr.Intn(20) == 0 && n < 100 {
							time.Sleep(time.Millisecond)
						}
					}
					put(shared, []byte(fmt.Sprint(id)))
					// Its own writes are visible, and nobody else's go away
					if it := ix.FindItem(shared.Owner, bkey(shared.Key)); it == nil || string(it.Data()) != fmt.Sprint(id) {
						c.violated("%s: session %d does not see its own record", what, id)
					}
					if rr.Intn(2) == 0 {
						if err := ix.Commit(); err != nil {
							c.violated("%s: commit of session %d: %v", what, id, err)
						}
					}
					ix.Close()
					mu.Lock()
					s.end, s.ended, s.ok = now(), true, true
					mu.Unlock()
				}
			})
		}(w)
	}
	for w := 0; w < 3; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rr := c.rng(i*50 + w + 20)
			c.guard(what, func() {
				for k := 0; k < 6; k++ {
					time.Sleep(time.Duration(rr.Intn(70)) * time.Millisecond)
					if w == 2 && k%2 == 0 { // refused
						if _, err := os.Stat(path); err != nil || k == 0 {
							continue
						}
						o := opts()
						o.FSID[7] ^= 1
						mu.Lock()
						any := false
						for _, s := range ss {
							any = any || s.ended
						}
						mu.Unlock()
						if !any {
							continue
						}
						if ix, err := index.Open(path, 0644, o); err == nil {
							c.violated("%s: opened with another filesystem id", what)
							ix.Close()
						}
						continue
					}
					o := &observation{who: fmt.Sprintf("reader %d.%d", w, k), start: now(), keys: map[recKey]bool{}, last: -1, hasLast: true}
					ix, err := index.OpenReadOnly(path)
					if o.failed = err != nil; !o.failed {
						o.data = c28state{}
						for r, v := ix.FullRange(); r.HasNext(); v = r.Next() {
							rk := recKey{r.Owner(), mkey(r.Key()), r.Generation()}
							o.keys[rk] = true
							if rk == shared {
								fmt.Sscan(string(v), &o.last)
								continue
							}
							o.data[rk] = append([]byte{}, v...)
							if rr.Intn(200) == 0 {
								time.Sleep(time.Millisecond)
							}
						}
						ix.Close()
					}
					o.end = now()
					mu.Lock()
					obs = append(obs, o)
					mu.Unlock()
				}
			})
		}(w)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(240 * time.Second):
		c.violated("%s: sessions and readers of one metadata file do not end: they block each other", what)
		return
	}
	if c.failed() {
		return
	}
	c.checkOrder(what, nil, ss, obs, &shared)
	c.count("sessions_on_threads", len(ss))
}

// concFirst starts scans of several filesystems on a metadata file that does
// not exist yet. The first one decides whose file it is.
func (c *Check) concFirst(i int) {
	r := c.rng(i)
	d := c.dir(fmt.Sprint("f", i))
	defer os.RemoveAll(d)
	nid := 2 + r.Intn(2)
	meta := filepath.Join(d, "meta")
	what := fmt.Sprintf("case %d (%d identities)", i, nid)
	type ident struct {
		bs    uint64
		fsid  UUID
		recs  []c28state
		paths []string
	}
	var ids []*ident
	for k := 0; k < nid; k++ {
		bs := blockSizes[r.Intn(3)]
		fs := newFS(r, bs, sizeFor(r, bs, 1))
		if k > 0 && r.Intn(2) == 0 { // the same id, but not the same block size
			fs.FSID = ids[0].fsid
			for bs == ids[0].bs {
				bs = blockSizes[r.Intn(3)]
			}
			fs = newFS(r, bs, sizeFor(r, bs, 1))
			fs.FSID = ids[0].fsid
		}
		id := &ident{bs: bs, fsid: fs.FSID}
		for _, o := range ids {
			if o.bs == id.bs && o.fsid == id.fsid {
				id = nil
				break
			}
		}
		if id == nil {
			continue
		}
		used := map[recKey]bool{}
		for n := 1 + r.Intn(2); n > 0; n-- {
			own := len(fs.Log)
			for len(fs.Log) == own || len(fs.Log[own].Items) == 0 {
				fs.Log = fs.Log[:own]
				fs.customLeaf(fs.slot(), used)
			}
			p := filepath.Join(d, fmt.Sprint("img", k, n))
			fs.writeImage(p, imgOpts{leaves: []int{own}, skipData: true})
			id.recs = append(id.recs, wantState(fs.records([]int{own})))
			id.paths = append(id.paths, p)
		}
		ids = append(ids, id)
	}
	type result struct{ id, n, code int }
	var mu sync.Mutex
	var out []result
	var wg sync.WaitGroup
	for k, id := range ids {
		for n := range id.paths {
			wg.Add(1)
			go func(k, n int, id *ident, seed int) {
				defer wg.Done()
				defer c.stuck(what)
				rr := c.rng(seed)
				var pre []string
				when := []string{"enter", "exit"}[rr.Intn(2)]
				call := []string{"openat", "flock", "newfstatat", "pwrite64"}[rr.Intn(4)]
				if rr.Intn(5) > 0 {
					pre = []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=" + call}
					if call == "openat" || call == "newfstatat" {
						pre = append(pre, "-P", meta)
					}
					pre = append(pre, "-e", fmt.Sprintf("inject=%s:delay_%s=%d:when=%d", call, when, 30000+rr.Intn(150000), 1+rr.Intn(3)))
				}
				time.Sleep(time.Duration(rr.Intn(20)) * time.Millisecond)
				res := c.run(runOpts{cpu: 120, prefix: pre}, reconArgs(id.bs, id.fsid, meta, id.paths[n])...)
				if cr := res.crash(); cr != "" {
					c.violated("%s: a scan crashed (%s): %v", what, cr, res)
				}
				mu.Lock()
				out = append(out, result{k, n, res.Code})
				mu.Unlock()
			}(k, n, id, i*100+k*10+n)
		}
	}
	wg.Wait()
	if c.failed() {
		return
	}
	won := -1
	for _, o := range out {
		if o.code == 0 {
			if won >= 0 && won != o.id {
				c.violated("%s: scans of different filesystems or block sizes both recorded into one new metadata file: %v", what, out)
				return
			}
			won = o.id
		}
	}
	if won < 0 {
		c.violated("%s: none of the scans that started at the same time succeeded: %v", what, out)
		return
	}
	want := c28state{}
	for _, o := range out {
		c.count("evaluations", 1)
		c.seen("case", what, o.id, o.n)
		if o.id == won && o.code != 0 {
			c.violated("%s: a scan was refused although one with the same parameters was accepted: %v", what, out)
			return
		}
		if o.id != won {
			c.count("scans_that_lost_the_file", 1)
			continue
		}
		for k, v := range ids[won].recs[o.n] {
			want[k] = v
		}
	}
	got, ok := c.readIndex(what, meta)
	if !ok {
		return
	}
	if dd := diffState(got, want); dd != "" {
		c.violated("%s: the metadata file does not hold exactly the records of the scans that succeeded (%v): %s", what, out, dd)
		return
	}
	ix, err := index.OpenReadOnly(meta)
	if err != nil {
		c.violated("%s: %v", what, err)
		return
	}
	defer ix.Close()
	if m := ix.Metadata(); UUID(m.FSID()) != ids[won].fsid || uint64(m.BlockSize()) != ids[won].bs {
		c.violated("%s: identity of another scan than the accepted ones", what)
	}
	c.seen("states", "first", won)
	c.count("contested_files", 1)
}

// concLong holds the file for a long time: everyone else waits.
func (c *Check) concLong(i int) {
	d := c.dir(fmt.Sprint("l", i))
	defer os.RemoveAll(d)
	what := fmt.Sprintf("case %d (long session)", i)
	r := c.rng(i)
	fs := newFS(r, 4096, sizeFor(r, 4096, 1))
	used := map[recKey]bool{}
	for len(fs.Log) == 0 || len(fs.Log[0].Items) == 0 {
		fs.Log = fs.Log[:0]
		fs.customLeaf(fs.slot(), used)
	}
	img, meta := filepath.Join(d, "img"), filepath.Join(d, "meta")
	fs.writeImage(img, imgOpts{leaves: []int{0}, skipData: true})
	ix, err := index.Open(meta, 0644, &index.Options{BlockSize: 4096, FSID: uuid.UUID(fs.FSID), Generation: ^uint64(0)})
	must(err)
	mark := recKey{77, Key{1, tInodeRef, 0}, 5}
	mustInsert(ix, Rec{Owner: mark.Owner, Key: mark.Key, Gen: mark.Gen, Data: []byte("x")})
	var wg sync.WaitGroup
	for k := 0; k < 3; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer c.stuck(what)
			c.count("evaluations", 1)
			if k == 0 {
				if res := c.run(runOpts{cpu: 60}, reconArgs(4096, fs.FSID, meta, img)...); res.Code != 0 {
					c.violated("%s: a scan failed while another one had the file: %v", what, res)
				}
				return
			}
			res := c.run(runOpts{cpu: 60}, "dump-index", "--metadata", meta)
			if res.Code != 0 {
				c.violated("%s: a reader failed while a scan had the file: %v", what, res)
				return
			}
			recs, _, err := parseDump(res.Out)
			if err != nil {
				c.violated("%s: %v", what, err)
				return
			}
			for _, rk := range recs {
				if rk == mark {
					return
				}
			}
			c.violated("%s: a reader that waited for a scan does not show it", what)
		}(k)
	}
	time.Sleep(time.Duration(4+i%2*8) * time.Second)
	ix.Close()
	wg.Wait()
	c.count("long_sessions", 1)
}
