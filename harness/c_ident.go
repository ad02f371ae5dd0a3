package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

func init() {
	checks["C19"] = checkDef{fn: checkC19, level: "exploration", min: 600,
		rule: "report of the real identify parsed and compared with counts over the sampled blocks, which are all blocks of the image or those the system-call trace shows; hand-laid images with ids around every threshold, special ids, levels, empty and packed leaves of all block sizes; an evaluation is one id compared, non-trivial if it is reported"}
	checks["C20"] = checkDef{fn: checkC20, level: "exploration", min: 40,
		rule: "images in which every block carries an id of its own, so that the report itself tells which blocks were examined how often, and traced reads of sparse devices up to beyond 1 PiB, for sampled options and sizes around every limit; an evaluation is one run"}
}

// idReport is a parsed line of identify's report.
type idReport struct {
	ID      string
	Count   uint64
	Entropy float64
	BS      uint64
}

var uuidRe = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$`)

func parseIdentify(out string, machine bool) (rs []idReport, err error) {
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if out == "" {
		lines = nil
	}
	if !machine {
		if len(lines) == 0 || strings.Join(strings.Fields(lines[0]), " ") != "fsid count entropy block size" {
			return nil, fmt.Errorf("no heading: %.200q", out)
		}
		lines = lines[1:]
	}
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) != 4 || !uuidRe.MatchString(f[0]) {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		n, e1 := strconv.ParseUint(f[1], 10, 64)
		h, e2 := strconv.ParseFloat(f[2], 64)
		b, e3 := strconv.ParseUint(f[3], 10, 64)
		if e1 != nil || e2 != nil || e3 != nil {
			return nil, fmt.Errorf("unexpected line %q", l)
		}
		rs = append(rs, idReport{f[0], n, h, b})
	}
	return
}

// blkStat is what the blocks of one id amount to.
type blkStat struct {
	n     uint64
	ends  map[uint64]bool
	super bool
}

// parseBlocks gathers what must be reported for the blocks at the offsets.
func parseBlocks(f *os.File, bs uint64, offs func(yield func(off uint64) bool)) map[UUID]*blkStat {
	out := map[UUID]*blkStat{}
	b := make([]byte, 126)
	offs(func(o uint64) bool {
		if n, err := f.ReadAt(b, int64(o)); n < len(b) {
			panic(fmt.Sprintf("harness: %v", err))
		}
		id := UUID(b[32:48])
		if b[100] != 0 || id == (UUID{}) || id == allOnes {
			return true
		}
		s := out[id]
		if s == nil {
			s = &blkStat{ends: map[uint64]bool{}}
			out[id] = s
		}
		s.n++
		if string(b[64:72]) == "_BHRfS_M" {
			s.super = true
		} else if binary.LittleEndian.Uint32(b[96:]) > 0 {
			s.ends[101+uint64(binary.LittleEndian.Uint32(b[118:]))+uint64(binary.LittleEndian.Uint32(b[122:]))] = true
		}
		return true
	})
	return out
}

var allOnes = UUID{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}

func (c *Check) compareIdent(what string, got []idReport, want map[UUID]*blkStat, minOcc uint64) {
	left := map[string]UUID{}
	for id, s := range want {
		if s.n >= minOcc {
			left[id.String()] = id
		}
		c.count("evaluations", 1)
	}
	for i, g := range got {
		id, ok := left[g.ID]
		if !ok {
			c.violated("%s: id %s is reported (%d times), but it occurs too rarely, is reported already or does not exist", what, g.ID, g.Count)
			return
		}
		delete(left, g.ID)
		s := want[id]
		c.seen("case", what, g.ID, g.Count)
		if g.Count != s.n {
			c.violated("%s: id %s is reported with count %d, it occurs %d times", what, g.ID, g.Count, s.n)
			return
		}
		if i > 0 && got[i-1].Count < g.Count {
			c.violated("%s: id %s with count %d comes after one with count %d", what, g.ID, g.Count, got[i-1].Count)
			return
		}
		if math.Abs(g.Entropy-refEntropy(id[:])) > 1e-6 {
			c.violated("%s: id %s is reported with entropy %f instead of %f", what, g.ID, g.Entropy, refEntropy(id[:]))
			return
		}
		if len(s.ends) == 1 {
			for e := range s.ends {
				if e%4096 == 0 && e >= 4096 && e <= 65536 {
					c.count("block_sizes_compared", 1)
					c.seen("block_size", e)
					if g.BS != e {
						c.violated("%s: id %s is reported with block size %d, its leaves end at %d", what, g.ID, g.BS, e)
						return
					}
				}
			}
		}
	}
	for id, u := range left {
		c.violated("%s: id %s occurs %d times (at least %d required), but is not reported", what, id, want[u].n, minOcc)
		return
	}
}

func checkC19(c *Check) {
	c.par(c.pick(64, 900), func(i int) {
		r := c.rng(i)
		bs := blockSizes[r.Intn(5)]
		if r.Intn(10) == 0 {
			bs = []uint64{512, 1024, 2048}[r.Intn(3)]
		}
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		img := filepath.Join(d, "img")
		desc := ""
		special := []UUID{{}, allOnes, {1}, {15: 1}, {0: 255, 15: 254}, allOnes, {7: 1}, {8: 0x80}}
		u := allOnes
		u[r.Intn(16)] ^= 1 << r.Intn(8)
		special[5] = u
		many := i%32 == 10
		if many {
			bs = 512
		}
		if i%32 == 3 { // ids in a lot of blocks
			bs = 512
			n := 66000 + r.Intn(3000) + (i/32)%2*(r.Intn(70000)+10000)
			size := max(sizeFor(r, bs, 4), uint64(n+r.Intn(70000))*bs)
			b := make([]byte, size)
			ids := []UUID{randUUID(r), randUUID(r), randUUID(r)}
			own := blockSizes[r.Intn(5)]
			if i%64 == 3 { // together more than 4 GiB
				own = 65536
			}
			for k := uint64(0); k < size/bs; k++ {
				h := b[k*bs:]
				id := ids[0]
				if k%256 == 9 {
					id = ids[1]
				} else if k > uint64(n) {
					if id = ids[2]; k == uint64(n)+1 && r.Intn(2) == 0 {
						break
					}
				}
				copy(h[32:], id[:])
				le32(h[96:], 1)
				le32(h[118:], uint32(own)-101-100)
				le32(h[122:], 100)
			}
			must(os.WriteFile(img, b, 0644))
			desc = "image full of leaves"
			c.count("ids_in_more_than_65535_blocks", 1)
		} else if i%4 == 0 { // a generated file system
			fbs := max(bs, 4096)
			fs := newFS(r, fbs, sizeFor(r, 65536, 6))
			if r.Intn(2) == 0 {
				fs.LogRoot = uint64(r.Uint32())<<12 | uint64(r.Intn(2))<<32
			}
			generate(fs, genOpts{entries: 10 + r.Intn(200), subvols: r.Intn(4), gens: r.Intn(6), xattrs: true, specials: true, maxFile: 4})
			fs.writeImage(img, imgOpts{noise: fs.noise(20), size: fs.Size + uint64(r.Intn(int(bs)))})
			desc = "generated image"
		} else {
			// ids in chosen numbers of blocks
			size := sizeFor(r, bs, 4)
			f, err := os.Create(img)
			must(err)
			must(f.Truncate(int64(size + uint64(r.Intn(2)*r.Intn(int(bs))))))
			n := int(size / bs)
			perm := r.Perm(n)
			next := 0
			base := randUUID(r)
			k := 3 + r.Intn(20)
			if many {
				k = 2500 + r.Intn(3000)
				c.count("images_of_thousands_of_ids", 1)
			}
			for ; k > 0 && next < n-300; k-- {
				id := randUUID(r)
				switch r.Intn(6) {
				case 0:
					id = special[r.Intn(len(special))]
				case 1: // related ids
					id = base
					id[r.Intn(16)] = byte(r.Intn(256))
				case 2: // low entropy
					id = UUID{}
					for j := range id {
						id[j] = byte(1 + r.Intn(1+r.Intn(3)))
					}
				}
				own := blockSizes[r.Intn(5)]
				cnt := 1 + r.Intn(8)
				if r.Intn(4) == 0 {
					cnt = 1 + r.Intn(250)
				}
				style := r.Intn(4)
				for ; cnt > 0; cnt-- {
					b := make([]byte, 126)
					r.Read(b)
					copy(b[32:], id[:])
					b[100] = 0
					items := uint32(r.Intn(100))
					if r.Intn(5) == 0 {
						items = uint32(r.Intn(2)) << uint(r.Intn(32))
					}
					off := uint32(r.Intn(int(own) - 101 - 25))
					switch style {
					case 1: // no items
						items = 0
					case 2: // not packed
						if r.Intn(4) == 0 {
							off = r.Uint32() >> uint(r.Intn(32))
						}
					}
					sz := uint32(own) - 101 - off
					if style == 2 && r.Intn(4) == 0 {
						sz = r.Uint32() >> uint(r.Intn(32))
					}
					le32(b[96:], items)
					le32(b[118:], off)
					le32(b[122:], sz)
					switch r.Intn(12) {
					case 0:
						b[100] = byte(1 + r.Intn(255))
					case 1:
						copy(b[64:], "_BHRfS_M")
					case 2:
						copy(b[64:], "_BHRfS_N")
					}
					_, err := f.WriteAt(b, int64(uint64(perm[next])*bs))
					must(err)
					next++
				}
			}
			// An id in the partial block at the end only
			b := make([]byte, 126)
			copy(b[32:], randUUID(r).String())
			f.WriteAt(b, int64(size))
			f.Close()
			desc = "hand-laid image"
		}
		f, err := os.Open(img)
		must(err)
		defer f.Close()
		fi, _ := f.Stat()
		size := uint64(fi.Size())
		all := parseBlocks(f, bs, func(y func(uint64) bool) {
			for o := uint64(0); o+bs <= size && y(o); o += bs {
			}
		})
		var counts []uint64
		for _, s := range all {
			counts = append(counts, s.n, s.n+1)
		}
		if len(counts) == 0 {
			counts = []uint64{1}
		}
		runs := []uint64{4, 1, counts[r.Intn(len(counts))], counts[r.Intn(len(counts))]}
		if r.Intn(3) == 0 {
			runs = append(runs, []uint64{0, 2, 1 << 31, 1<<32 + 1}[r.Intn(4)])
		}
		for k, mo := range runs {
			args := []string{"identify", "--block-size", fmt.Sprint(bs)}
			machine := r.Intn(2) == 0
			if machine {
				args = append(args, []string{"-m", "--machine"}[r.Intn(2)])
			}
			if r.Intn(3) > 0 {
				args = append(args, "-p=false")
			}
			if k > 0 || r.Intn(2) == 0 {
				args = append(args, "--min-occurrence", fmt.Sprint(mo))
			}
			what := fmt.Sprintf("case %d: %s, %d bytes, block size %d, at least %d times", i, desc, size, bs, mo)
			want := all
			var got []idReport
			var errOut []byte
			if r.Intn(4) > 0 {
				args = append(args, [][]string{{"--sample-fraction", "1", "--max-blocks", "4294967295"}, {"--min-blocks", "18446744073709551615"}, {"--min-blocks", fmt.Sprint(size / bs)}, {"--sample-fraction", "1"}}[r.Intn(4)]...)
				res := c.cli(runOpts{}, append(args, img)...)
				if res.Code != 0 {
					c.violated("%s: identify failed: %v", what, res)
					return
				}
				errOut = res.Err
				got, err = parseIdentify(string(res.Out), machine)
			} else {
				// A real sample, known from the trace
				args = append(args, [][]string{{}, {"--sample-fraction", "0.2"}, {"--min-blocks", "1500"}}[r.Intn(3)]...)
				res, reads, ok := c.traceReads(d, img, append(args, img)...)
				if res.Code != 0 {
					c.violated("%s: identify failed: %v", what, res)
					return
				}
				if !ok {
					continue
				}
				set := map[uint64]bool{}
				for _, rd := range reads {
					if rd.n != bs {
						ok = false // not a block by block reader
					}
					set[rd.off] = true
				}
				if !ok {
					continue
				}
				what += " (sampled)"
				c.count("sampled_runs_judged", 1)
				want = parseBlocks(f, bs, func(y func(uint64) bool) {
					for o := range set {
						y(o)
					}
				})
				errOut = res.Err
				got, err = parseIdentify(string(res.Out), machine)
			}
			if err != nil {
				c.violated("%s: %v", what, err)
				return
			}
			c.compareIdent(what, got, want, mo)
			if none := bytes.Contains(errOut, []byte("no filesystem id")); none != (len(got) == 0) {
				c.violated("%s: %d ids are reported, but the warning that there is none says otherwise: %q", what, len(got), errOut)
				return
			}
			if len(got) == 0 {
				c.count("empty_reports", 1)
			}
			c.seen("min_occurrence", mo)
			if i < 4 && k == 0 {
				c.sample(map[string]any{"image": desc, "block size": bs, "ids in image": len(all), "ids reported": len(got)})
			}
		}
	})
}

type readAt struct{ off, n uint64 }

var openRe = regexp.MustCompile(`\bopen(?:at)?\((?:[^,"]*, )?"((?:[^"\\]|\\.)*)".* = (\d+)`)
var callRe = regexp.MustCompile(`\b(pread64|read|lseek|close|mmap|preadv2?|readv)\((\d+)?(.*)\) += (-?\d+)`)

// traceReads runs the program under strace and returns the reads of a file.
func (c *Check) traceReads(dir, file string, args ...string) (res Res, reads []readAt, ok bool) {
	tr := filepath.Join(dir, "trace")
	res = c.run(runOpts{cpu: 300, prefix: []string{"strace", "-f", "-qq", "-s", "0", "-e", "trace=open,openat,pread64,read,lseek,close,mmap,preadv,preadv2,readv", "-e", "signal=none", "-o", tr}}, args...)
	b, err := os.ReadFile(tr)
	must(err)
	os.Remove(tr)
	// strace -s 0 leaves no file names, so take the position of the path from
	// the arguments instead: names are printed in full for open calls.
	fds := map[string]bool{}
	pos := map[string]uint64{}
	ok = true
	pend := map[string]string{}
	for _, l := range bytes.Split(b, []byte("\n")) {
		s := string(l)
		j := strings.IndexByte(s, ' ')
		if j < 0 {
			continue
		}
		pid := s[:j]
		if k := strings.Index(s, "<unfinished ...>"); k >= 0 {
			pend[pid] = s[:k]
			continue
		}
		if k := strings.Index(s, "resumed>"); k >= 0 {
			s = pend[pid] + s[k+8:]
		}
		if m := openRe.FindStringSubmatch(s); m != nil {
			if m[1] == file {
				fds[m[2]] = true
				pos[m[2]] = 0
			} else {
				delete(fds, m[2])
			}
			continue
		}
		m := callRe.FindStringSubmatch(s)
		if m == nil || m[4] == "-1" {
			continue
		}
		n, _ := strconv.ParseUint(m[4], 10, 64)
		if m[1] == "mmap" {
			for fd := range fds {
				if strings.Contains(m[3], ", "+fd+", ") {
					ok = false
				}
			}
			continue
		}
		if !fds[m[2]] {
			continue
		}
		switch m[1] {
		case "close":
			delete(fds, m[2])
		case "lseek":
			pos[m[2]] = n
		case "read":
			if n > 0 {
				reads = append(reads, readAt{pos[m[2]], n})
			}
			pos[m[2]] += n
		case "pread64":
			f := strings.Split(m[3], ",")
			o, err := strconv.ParseUint(strings.TrimSpace(f[len(f)-1]), 10, 64)
			if err != nil {
				ok = false
			}
			if n > 0 {
				reads = append(reads, readAt{o, n})
			}
		default:
			ok = false
		}
	}
	if len(reads) == 0 {
		ok = false
	}
	return
}

var superOffs = []uint64{64 << 10, 64 << 20, 256 << 30, 1 << 50}

// c20opts are random options; count is the requested number of blocks and
// known tells whether the documentation defines it.
func c20opts(r *rand.Rand, nb uint64, maxN uint64) (args []string, lo, hi uint64, known bool) {
	frac, minB, maxB := 0.0001, uint64(1000), uint64(1000000)
	if r.Intn(3) > 0 {
		frac = []float64{0, 1, 0.5, 0.1, 0.01, 0.001, 1e-9, 0.999, 2, 1.0 / 3, r.Float64(), r.Float64() / 10}[r.Intn(12)]
		if maxN < nb && frac*float64(nb) > float64(maxN) {
			frac = float64(maxN) / float64(nb) * r.Float64()
		}
		args = append(args, "--sample-fraction", strconv.FormatFloat(frac, 'g', -1, 64))
	}
	if r.Intn(2) == 0 {
		minB = []uint64{0, 1, 2, 99, 100, 199, 200, 201, 202, nb, nb - 1, nb + 1, nb / 2, uint64(r.Intn(4000))}[r.Intn(14)]
		if minB > maxN {
			minB = uint64(r.Intn(int(maxN)))
		}
		args = append(args, "--min-blocks", fmt.Sprint(minB))
	}
	if r.Intn(2) == 0 {
		maxB = []uint64{minB, minB + 1, 1000, 1, 0, 200, 201, nb, nb - 1, nb + 1, math.MaxUint64, uint64(r.Intn(4000))}[r.Intn(12)]
		args = append(args, "--max-blocks", fmt.Sprint(maxB))
	}
	known = minB <= maxB
	q := frac * float64(nb)
	val := func(x float64) uint64 {
		n := uint64(math.Max(0, x))
		if x >= 1<<62 {
			n = 1 << 62
		}
		return min(nb, min(maxB, max(minB, n)))
	}
	return args, val(math.Floor(q)), val(math.Ceil(q)), known
}

// neighbourhood is the set of blocks next to the superblock copies.
func neighbourhood(size, bs uint64) map[uint64]bool {
	out := map[uint64]bool{}
	for _, s := range superOffs {
		for k := uint64(0); k < 100; k++ {
			if o := s + k*bs; o+bs <= size {
				out[o] = true
			}
		}
	}
	return out
}

func (c *Check) judgeSample(what string, size, bs uint64, offs map[uint64]int, lo, hi uint64, known bool) bool {
	c.count("evaluations", 1)
	c.count("blocks_observed", len(offs))
	c.seen("case", what)
	for o, n := range offs {
		if n != 1 {
			c.violated("%s: block at %d was examined %d times", what, o, n)
			return false
		}
		if o+bs > size {
			c.violated("%s: the block at %d is not completely inside the device of %d bytes", what, o, size)
			return false
		}
	}
	near := neighbourhood(size, bs)
	for o := range near {
		if offs[o] == 0 {
			c.violated("%s: the block at %d next to a superblock copy was not examined", what, o)
			return false
		}
	}
	// The others are spread over the whole device. Eight standard deviations
	// from the mean are never seen.
	if n := len(offs) - len(near); n >= 800 && size/bs >= 4000 {
		var parts [8]int
		for o := range offs {
			if !near[o] {
				hi, lo := bits.Mul64(o, 8)
				q, _ := bits.Div64(hi, lo, size)
				parts[q]++
			}
		}
		c.count("distributions_judged", 1)
		for k, m := range parts {
			if m < n/80 {
				c.violated("%s: only %d of %d blocks in part %d of 8 of the device were examined: %v", what, m, n, k+1, parts)
				return false
			}
		}
		// Every block can be chosen
		for m := uint64(2); m <= 8; m++ {
			classes := make([]int, m)
			for o := range offs {
				if !near[o] {
					classes[o/bs%m]++
				}
			}
			for k, x := range classes {
				if uint64(x) < uint64(n)/(10*m) {
					c.violated("%s: only %d of %d blocks examined leave a rest of %d if their numbers are divided by %d", what, x, n, k, m)
					return false
				}
			}
		}
	}
	if !known || 65536%bs != 0 {
		return true
	}
	c.count("counts_compared", 1)
	lo, hi = max(lo, uint64(len(near))), max(hi, uint64(len(near)))
	if n := uint64(len(offs)); n < lo || n > hi {
		c.violated("%s: %d blocks were examined, but %d were requested", what, n, lo)
		return false
	}
	return true
}

// c20repeat examines one device several times, seconds apart: chance has to
// choose other blocks each time.
func (c *Check) c20repeat(i int) {
	r := c.rng(i)
	d := c.dir(fmt.Sprint("r", i))
	defer os.RemoveAll(d)
	img := filepath.Join(d, "img")
	const bs, nb = 16384, 6000
	f, err := os.Create(img)
	must(err)
	defer f.Close()
	must(f.Truncate(bs * nb))
	for o := int64(0); o < nb; o++ {
		b := make([]byte, 16)
		copy(b, "BLOCK")
		le64(b[8:], uint64(o)+1)
		_, err := f.WriteAt(b, o*bs+32)
		must(err)
	}
	ask := 300 + r.Intn(500)
	seen := map[string]int{}
	for k := 0; k < 6; k++ {
		if k > 0 {
			time.Sleep(time.Duration(1050+r.Intn(100)) * time.Millisecond)
		}
		what := fmt.Sprintf("repeat %d: run %d on a device of %d blocks, %d asked for", i, k, nb, ask)
		res := c.cli(runOpts{cpu: 60}, "identify", "-m", "-p=false", "--block-size", fmt.Sprint(bs), "--min-occurrence", "1",
			"--min-blocks", fmt.Sprint(ask), "--max-blocks", fmt.Sprint(ask), img)
		if res.Code != 0 {
			c.violated("%s: identify failed: %v", what, res)
			return
		}
		rs, err := parseIdentify(string(res.Out), true)
		if err != nil {
			c.violated("%s: %v", what, err)
			return
		}
		var ids []string
		for _, x := range rs {
			ids = append(ids, fmt.Sprint(x.ID))
		}
		sort.Strings(ids)
		key := strings.Join(ids, " ")
		if before, ok := seen[key]; ok {
			c.violated("%s: the same %d blocks as run %d: no block that both missed is ever examined", what, len(ids), before)
			return
		}
		seen[key] = k
	}
	c.count("repeated_samplings", 1)
}

func checkC20(c *Check) {
	c.par(c.pick(2, 8), func(i int) { c.c20repeat(5000 + i) })
	c.par(c.pick(48, 700), func(i int) {
		r := c.rng(i)
		d := c.dir(fmt.Sprint("c", i))
		defer os.RemoveAll(d)
		img := filepath.Join(d, "img")
		f, err := os.Create(img)
		must(err)
		defer f.Close()
		bs := []uint64{16384, 65536, 4096, 32768, 8192, 16384}[r.Intn(6)]
		if r.Intn(12) == 0 {
			bs = []uint64{12288, 5000, 126, 20480, 131072, 1 << 20, 999}[r.Intn(7)]
		}
		if i%4 < 2 {
			// Every block carries its own id.
			if 65536%bs != 0 {
				bs = 16384
			}
			size := minImageSize(bs)
			if i == 9 { // more than can be guessed
				bs = 512
				size = minImageSize(bs) + uint64(70<<20+r.Intn(40<<20))
			} else if i%8 == 1 {
				bs = max(bs, 16384)
				size = minImageSize(bs) + uint64(r.Intn(100<<20))
			} else if bs >= 16384 {
				size += []uint64{0, 1, bs - 1, bs, bs + 1, uint64(r.Intn(int(bs))), uint64(r.Intn(100 << 20))}[r.Intn(7)]
			} else if bs >= 4096 {
				size += uint64(r.Intn(int(3 * bs)))
			}
			must(f.Truncate(int64(size)))
			put := func(o uint64) {
				b := make([]byte, 126)
				copy(b[32:], "BLOCK")
				le64(b[40:], o+1)
				_, err := f.WriteAt(b[:min(126, size-o)], int64(o))
				must(err)
			}
			for o := uint64(0); o+48 <= size; o += bs {
				put(o)
			}
			for k := 0; k < 2; k++ {
				args, lo, hi, known := c20opts(r, size/bs, math.MaxInt32)
				if i%8 == 1 && k == 0 { // every single one
					args = [][]string{{"--sample-fraction", "1"}, {"--min-blocks", fmt.Sprint(size / bs)}, {"--sample-fraction", "1.5", "--max-blocks", fmt.Sprint(size / bs)}}[r.Intn(3)]
					lo, hi, known = size/bs, size/bs, true
				}
				full := append([]string{"identify", "-m", "-p=false", "--block-size", fmt.Sprint(bs), "--min-occurrence", "1"}, args...)
				what := fmt.Sprintf("case %d: device of %d bytes, block size %d, options %s", i, size, bs, strings.Join(args, " "))
				res := c.cli(runOpts{cpu: 60}, append(full, img)...)
				if res.Code != 0 {
					c.violated("%s: identify failed: %v", what, res)
					return
				}
				rs, err := parseIdentify(string(res.Out), true)
				if err != nil {
					c.violated("%s: %v", what, err)
					return
				}
				offs := map[uint64]int{}
				for _, x := range rs {
					b := unhexU(x.ID)
					o := binary.LittleEndian.Uint64(b[8:]) - 1
					if string(b[:5]) != "BLOCK" || o%bs != 0 {
						c.violated("%s: something else than a block was examined: %v", what, x)
						return
					}
					offs[o] += int(x.Count)
				}
				if !c.judgeSample(what, size, bs, offs, lo, hi, known) {
					return
				}
				if i < 2 && k == 0 {
					c.sample(map[string]any{"device": size, "block size": bs, "options": args, "blocks examined": len(offs)})
				}
			}
			return
		}
		// Sparse devices, reads traced
		sizes := []uint64{}
		for _, s := range []uint64{256 << 30, 1 << 50} {
			sizes = append(sizes, s, s+1, s+bs, s+bs-1, s+100*bs, s+100*bs-1, s+99*bs+1, s+uint64(r.Intn(1<<30)), s*3)
		}
		sizes = append(sizes, 1<<30, 10<<40+uint64(r.Intn(1<<30)), 1<<40, 1<<62, 1<<63-1, 1<<32, 1<<32+5)
		size := sizes[r.Intn(len(sizes))]
		if i%8 == 2 {
			size = minImageSize(bs) + uint64(r.Intn(3))*bs
		}
		if f.Truncate(int64(size)) != nil {
			c.count("sizes_the_scratch_file_system_refused", 1)
			return
		}
		args, lo, hi, known := c20opts(r, size/bs, 6000)
		if i%16 == 7 { // only termination and containment are defined
			known = false
			args = []string{"--max-blocks", "3000", "--sample-fraction", []string{"-1", "NaN", "Inf", "-Inf", "1e300", "-1e-9"}[r.Intn(6)]}
		}
		what := fmt.Sprintf("case %d: traced, device of %d bytes, block size %d, options %s", i, size, bs, strings.Join(args, " "))
		if hi > 20000 {
			return
		}
		res, reads, ok := c.traceReads(d, img, append(append([]string{"identify", "-m", "-p=false", "--block-size", fmt.Sprint(bs)}, args...), img)...)
		if k := res.crash(); k != "" || res.Code != 0 {
			c.violated("%s: identify failed: %v", what, res)
			return
		}
		if !ok {
			c.count("traces_not_understood", 1)
			return
		}
		offs := map[uint64]int{}
		for _, rd := range reads {
			if rd.n != bs {
				c.count("traces_not_understood", 1)
				return
			}
			offs[rd.off]++
		}
		c.seen("device_size", size)
		c.judgeSample(what, size, bs, offs, lo, hi, known)
		if i == 3 {
			var some []uint64
			for o := range offs {
				some = append(some, o)
			}
			sort.Slice(some, func(a, b int) bool { return some[a] < some[b] })
			c.sample(map[string]any{"device": size, "block size": bs, "options": args, "blocks examined": len(offs), "last": some[len(some)-3:]})
		}
	})
}

func unhexU(s string) []byte {
	var u [16]byte
	h := strings.ReplaceAll(s, "-", "")
	for i := range u {
		v, err := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
		must(err)
		u[i] = byte(v)
	}
	return u[:]
}
