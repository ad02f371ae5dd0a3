package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"blichmann.eu/code/btrfscue/pkg/btrfs"
	"blichmann.eu/code/btrfscue/pkg/btrfs/index"
	"blichmann.eu/code/btrfscue/pkg/uuid"
	"go.etcd.io/bbolt"
)

func init() {
	checks["C05"] = checkDef{fn: checkC05, level: "exploration", min: 20000,
		rule: "random sets of (owner, key, generation) records with dense and extreme key parts, opened read-only and read-write under many view generations; every recorded key, its neighbours and random keys are looked up and compared with a map model; a lookup is non-trivial if the key has several versions or a neighbour sharing all but one part"}
	checks["C06"] = checkDef{fn: checkC06, level: "exploration", min: 2000,
		rule: "the same record sets; ranges between random bounds, prepared ranges and the full range are iterated and compared with the sorted model; non-trivial if the range holds at least two keys"}
	checks["C24"] = checkDef{fn: checkC24, level: "exploration", min: 20000,
		rule: "triples of keys with parts from extreme and adjacent values against the reference order, and index iteration order; non-trivial if the keys differ"}
	checks["C08"] = checkDef{fn: checkC08, level: "exploration", min: 5000,
		rule: "random sets of non-overlapping chunks inserted in random order with several generations; first, last, middle addresses of every chunk; non-trivial if there are at least two chunks"}
	checks["C09"] = checkDef{fn: checkC09, level: "exploration", min: 2000,
		rule: "random trees with subvolumes, wrong hashes and hash collisions; every path and near-miss paths; non-trivial if the path has at least two components or does not exist"}
	checks["C07"] = checkDef{fn: checkC07, level: "exploration", min: 5000, cpu: 3000,
		rule: "goroutines query one freshly opened read-only index in different orders under the race detector; answers compared with those of a private index; non-trivial: queries that return records"}
}

func bkey(k Key) btrfs.Key { return btrfs.Key{ObjectID: k.Obj, Type: k.Type, Offset: k.Off} }
func mkey(k btrfs.Key) Key { return Key{k.ObjectID, k.Type, k.Offset} }

func hdrBytes(owner, gen uint64, fsid UUID) []byte {
	b := make([]byte, leafHdr)
	copy(b[32:], fsid[:])
	le64(b[80:], gen)
	le64(b[88:], owner)
	return b
}

func itemBytes(k Key, off, size uint32) []byte {
	b := make([]byte, itemHdr)
	encKey(b, k)
	le32(b[17:], off)
	le32(b[21:], size)
	return b
}

func insert(ix *index.Index, rec Rec) error {
	h := hdrBytes(rec.Owner, rec.Gen, UUID{})
	it := itemBytes(rec.Key, uint32(rec.Gen), uint32(len(rec.Data)))
	d := append([]byte{}, rec.Data...)
	err := ix.InsertItem(bkey(rec.Key), btrfs.Header(h), it, d)
	// The caller may use its buffers for the next block.
	for _, b := range [][]byte{h, it, d} {
		for i := range b {
			b[i] = 0xa5
		}
	}
	return err
}

// mustInsert inserts a record that is valid.
func mustInsert(ix *index.Index, rec Rec) {
	if err := insert(ix, rec); err != nil {
		panic(refusal(fmt.Sprintf("record %d %v @%d was not inserted: %v", rec.Owner, rec.Key, rec.Gen, err)))
	}
}

func openRW(path string, fsid UUID, bs uint, gen uint64) *index.Index {
	ix, err := index.Open(path, 0644, &index.Options{BlockSize: bs, FSID: uuid.UUID(fsid), Generation: gen})
	if err != nil {
		panic(refusal(fmt.Sprintf("a valid index was not opened: %v", err)))
	}
	return ix
}

func openRO(path string) *index.Index {
	ix, err := index.OpenReadOnly(path)
	if err != nil {
		panic(refusal(fmt.Sprintf("a valid index was not opened: %v", err)))
	}
	return ix
}

// recset is a model of an index: versions per owner and key.
type recset struct {
	v map[uint64]map[Key]map[uint64][]byte
}

func newRecset() *recset { return &recset{map[uint64]map[Key]map[uint64][]byte{}} }

func (s *recset) put(rec Rec) {
	if s.v[rec.Owner] == nil {
		s.v[rec.Owner] = map[Key]map[uint64][]byte{}
	}
	if s.v[rec.Owner][rec.Key] == nil {
		s.v[rec.Owner][rec.Key] = map[uint64][]byte{}
	}
	s.v[rec.Owner][rec.Key][rec.Gen] = rec.Data
}

func (s *recset) find(owner uint64, k Key, view uint64) (gen uint64, data []byte, ok bool) {
	vs := s.v[owner][k]
	if len(vs) == 0 {
		return
	}
	best, oldest := uint64(0), ^uint64(0)
	have := false
	for g := range vs {
		if g <= view && (!have || g > best) {
			best, have = g, true
		}
		if g < oldest {
			oldest = g
		}
	}
	if !have {
		best = oldest
	}
	return best, vs[best], true
}

func (s *recset) keys(owner uint64) []Key {
	var out []Key
	for k := range s.v[owner] {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].less(out[j]) })
	return out
}

func (s *recset) owners() []uint64 {
	var out []uint64
	for o := range s.v {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

var poolOwner = []uint64{0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 257, 258, 1 << 31, 1<<32 + 5, 1 << 63, ^uint64(1), ^uint64(6)}
var poolObj = []uint64{0, 1, 2, 5, 255, 256, 257, 258, 511, 512, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 256, 1<<63 - 1, 1 << 63, ^uint64(256), ^uint64(255)}
var poolOff = []uint64{0, 1, 2, 255, 256, 4096, 8192, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(1), ^uint64(0)}
var poolType = []uint8{0, 1, 12, 24, 84, 96, 108, 127, 128, 132, 168, 216, 228, 254}
var poolGen = []uint64{0, 1, 2, 3, 5, 7, 100, 101, 255, 256, 257, 65536, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(1), ^uint64(0)}

// edge returns one of the smallest or largest offsets now and then.
func edge(r *rand.Rand, x uint64) uint64 {
	if r.Intn(4) == 0 {
		return []uint64{0, 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1 << 63, ^uint64(0) - 1}[r.Intn(7)]
	}
	return x
}

// randRecs makes a record set. style 0: extremes, 1: dense, 2: file system like.
func randRecs(r *rand.Rand, n int, style int) []Rec {
	var out []Rec
	id := 0
	nOwn := 1 + r.Intn(4)
	var own []uint64
	for i := 0; i < nOwn; i++ {
		own = append(own, poolOwner[r.Intn(len(poolOwner))])
	}
	if style == 2 {
		own = []uint64{1, 2, 3, 5, 256, 257}
	}
	baseObj, baseOff := r.Uint64()>>uint(r.Intn(60)), r.Uint64()>>uint(r.Intn(60))
	if baseObj > ^uint64(1000) {
		baseObj = 300
	}
	if baseOff > ^uint64(1000) {
		baseOff = 0
	}
	ty := poolType[r.Intn(len(poolType))]
	for len(out) < n {
		o := own[r.Intn(len(own))]
		var k Key
		switch style {
		case 0:
			k = Key{poolObj[r.Intn(len(poolObj))], poolType[r.Intn(len(poolType))], poolOff[r.Intn(len(poolOff))]}
		case 1:
			k = Key{baseObj + uint64(r.Intn(3)), ty + uint8(r.Intn(2)), baseOff + uint64(r.Intn(6))}
		default:
			switch r.Intn(8) {
			case 0:
				k = Key{256 + uint64(r.Intn(6)), tInodeItem, 0}
			case 1:
				k = Key{256 + uint64(r.Intn(6)), tDirItem, edge(r, uint64(r.Uint32()))}
			case 2:
				k = Key{256 + uint64(r.Intn(6)), tXattr, edge(r, uint64(r.Uint32()))}
			case 3:
				k = Key{256 + uint64(r.Intn(6)), tExtentData, edge(r, uint64(r.Intn(20))*4096)}
			case 4:
				o, k = 3, Key{256, tChunkItem, uint64(r.Intn(100)) << 20}
			case 5:
				o, k = 3, Key{1, tDevItem, uint64(r.Intn(20))}
			case 6:
				o, k = 1, Key{[]uint64{1, 2, 4, 5, 255, 256, 257, 258, 300, 1 << 33, ^uint64(256), ^uint64(8)}[r.Intn(12)], tRootItem, []uint64{0, 7, 100}[r.Intn(3)]}
			default:
				o, k = 2, Key{uint64(r.Intn(100)) << 12, tExtentItem, 4096 * uint64(1+r.Intn(4))}
			}
		}
		vers := 1 + r.Intn(4)
		if r.Intn(3) == 0 {
			vers = 1
		}
		for ; vers > 0; vers-- {
			g := poolGen[r.Intn(len(poolGen))]
			if r.Intn(2) == 0 {
				g = 10 + uint64(r.Intn(30))
			}
			id++
			d := []byte(fmt.Sprintf("#%d %d %v @%d ", id, o, k, g))
			d = append(d, bytes.Repeat([]byte{byte(id)}, r.Intn(200))...)
			if k.Type == tRootItem || k.Type == tInodeItem || k.Type == tChunkItem {
				d = append(d, make([]byte, 440)...) // never shorter than the structure
			}
			out = append(out, Rec{Owner: o, Key: k, Gen: g, Data: d})
		}
	}
	if r.Intn(3) == 0 && style < 2 { // The same keys and generations in the tree next to it
		o := own[r.Intn(len(own))]
		for _, rc := range out {
			if rc.Owner == o && o < ^uint64(0)-1 && len(out) < 2*n && r.Intn(5) > 0 {
				rc.Owner++
				rc.Data = append([]byte("copy of "), rc.Data...)
				out = append(out, rc)
			}
		}
	}
	return out
}

// buildIndex writes records to a new index file.
func buildIndex(path string, recs []Rec) *recset {
	s := newRecset()
	ix := openRW(path, UUID{1}, 4096, ^uint64(0))
	for _, rec := range recs {
		mustInsert(ix, rec)
		s.put(rec)
	}
	must(ix.Commit())
	ix.Close()
	return s
}

func viewGens(r *rand.Rand, s *recset, n int) []uint64 {
	out := []uint64{^uint64(0), 0, ^uint64(1)}
	for len(out) < n {
		switch r.Intn(3) {
		case 0:
			out = append(out, poolGen[r.Intn(len(poolGen))])
		case 1:
			out = append(out, 9+uint64(r.Intn(33)))
		default:
			out = append(out, r.Uint64()>>uint(r.Intn(64)))
		}
	}
	return out[:n]
}

func neighbours(r *rand.Rand, o uint64, k Key) []struct {
	o uint64
	k Key
} {
	type ok = struct {
		o uint64
		k Key
	}
	out := []ok{{o, k}}
	for _, d := range []uint64{1, ^uint64(0), 256, 1 << 32} {
		out = append(out, ok{o, Key{k.Obj + d, k.Type, k.Off}}, ok{o, Key{k.Obj, k.Type, k.Off + d}}, ok{o + d, k})
	}
	out = append(out, ok{o, Key{k.Obj, k.Type + 1, k.Off}}, ok{o, Key{k.Obj, k.Type - 1, k.Off}},
		ok{o, Key{k.Off, k.Type, k.Obj}}, ok{k.Obj, Key{o, k.Type, k.Off}})
	return out
}

func checkC05(c *Check) {
	n := c.pick(120, 6000)
	c.par(n, func(i int) {
		r := c.rng(i)
		path := filepath.Join(c.dir("c05"), fmt.Sprint(i))
		recs := randRecs(r, 5+r.Intn(c.pick(80, 400)), i%3)
		s := buildIndex(path, recs)
		var probes []struct {
			o uint64
			k Key
		}
		for _, rec := range recs {
			nb := neighbours(r, rec.Owner, rec.Key)
			probes = append(probes, nb[0])
			probes = append(probes, nb[r.Intn(len(nb))], nb[r.Intn(len(nb))])
		}
		lookup := func(ix *index.Index, view uint64, mode string) {
			for _, p := range probes {
				if p.o == ^uint64(0) {
					continue
				}
				c.guard(fmt.Sprintf("case %d: looking up owner %d key %v at view %d", i, p.o, p.k, view), func() {
					it := ix.FindItem(p.o, bkey(p.k))
					gen, data, ok := s.find(p.o, p.k, view)
					c.count("evaluations", 1)
					vers := s.v[p.o][p.k]
					if len(vers) > 1 || !ok {
						c.seen("case", i, p.o, p.k, view)
					}
					if ok {
						c.count("found", 1)
					} else {
						c.count("absent", 1)
					}
					var gens []uint64
					for g := range vers {
						gens = append(gens, g)
					}
					ctx := fmt.Sprintf("case %d (%s): owner %d key %v view %d, recorded generations %v", i, mode, p.o, p.k, view, gens)
					switch {
					case ok && it == nil:
						c.violated("%s: lookup found nothing", ctx)
					case !ok && it != nil:
						c.violated("%s: lookup found %q although the key has no record", ctx, []byte(it))
					case ok:
						want := append(itemBytes(p.k, uint32(gen), uint32(len(data))), data...)
						if !bytes.Equal(it, want) || !bytes.Equal(it.Data(), data) {
							c.violated("%s: lookup returned %q, expected the record of generation %d: %q", ctx, []byte(it), gen, want)
						}
					}
					// The prepared lookups agree.
					same := func(kind string, k Key, got []byte) {
						if k != p.k {
							return
						}
						if !bytes.Equal(got, data) {
							c.violated("%s: %s returned %q, expected %q", ctx, kind, got, data)
						}
						c.count("prepared_lookups", 1)
					}
					if p.k.Type == tInodeItem {
						same("FindInodeItem", Key{p.k.Obj, tInodeItem, 0}, ix.FindInodeItem(p.o, p.k.Obj))
					}
					if p.k.Type == tExtentData {
						same("FindFileExtentItem", Key{p.k.Obj, tExtentData, 0}, ix.FindFileExtentItem(p.o, p.k.Obj))
					}
					if p.k.Type == tExtentItem && p.o == 2 {
						same("FindExtentItem", p.k, ix.FindExtentItem(p.k.Obj, p.k.Off))
					}
				})
				if c.failed() {
					return
				}
			}
		}
		ix := openRO(path)
		for _, g := range viewGens(r, s, c.pick(6, 20)) {
			ix.Generation = g
			lookup(ix, g, "read-only")
		}
		ix.Close()
		g := viewGens(r, s, 6)[r.Intn(6)]
		ix = openRW(path, UUID{1}, 4096, g)
		lookup(ix, g, "read-write")
		ix.Close()
		if i == 0 {
			c.sample(map[string]any{"records": len(recs), "probes": len(probes), "first": fmt.Sprint(recs[0].Owner, recs[0].Key, recs[0].Gen)})
		}
	})
}

type rngRes struct {
	key  Key
	gen  uint64
	own  uint64
	data string
}

func (a rngRes) String() string { return fmt.Sprintf("%d%v@%d", a.own, a.key, a.gen) }

// collect iterates a range, at most max steps.
func collect(r index.Range, first []byte, max int) (out []rngRes, over bool) {
	d := first
	var raw [][]byte
	defer func() { // What was returned stays as it is
		for i := range raw {
			if string(raw[i]) != out[i].data && !strings.HasPrefix(out[i].data, "(item") {
				out[i].data = "(changed by a later step)"
			}
		}
	}()
	for ; r.HasNext(); d = r.Next() {
		if len(out) >= max {
			return out, true
		}
		raw = append(raw, d)
		out = append(out, rngRes{mkey(r.Key()), r.Generation(), r.Owner(), string(d)})
		if it := r.Item(); string(it.Data()) != string(d) || mkey(it.Key()) != mkey(r.Key()) {
			out[len(out)-1].data = "(item and data disagree)"
		}
	}
	return out, false
}

func (s *recset) rng(owner uint64, view uint64, in func(Key) bool) (out []rngRes) {
	for _, k := range s.keys(owner) {
		if in(k) {
			g, d, _ := s.find(owner, k, view)
			out = append(out, rngRes{k, g, owner, string(d)})
		}
	}
	return
}

func diffRes(got, want []rngRes, over bool) string {
	if over {
		return fmt.Sprintf("iteration does not end: %d steps for %d keys; last %v", len(got), len(want), got[len(got)-3:])
	}
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("iteration ended after %d of %d keys; missing %v", len(got), len(want), want[i])
		}
		if got[i] != want[i] {
			return fmt.Sprintf("position %d: got %v %q, expected %v %q", i, got[i], got[i].data, want[i], want[i].data)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("position %d: extra %v", len(want), got[len(want)])
	}
	return ""
}

func checkC06(c *Check) {
	n := c.pick(150, 6000)
	c.par(n, func(i int) {
		r := c.rng(i)
		path := filepath.Join(c.dir("c06"), fmt.Sprint(i))
		cnt := r.Intn(c.pick(80, 600))
		if i%17 == 0 {
			cnt = r.Intn(2)
		}
		recs := randRecs(r, cnt, i%3)
		s := buildIndex(path, recs)
		ix := openRO(path)
		defer ix.Close()
		owners := s.owners()
		for _, view := range viewGens(r, s, c.pick(5, 12)) {
			ix.Generation = view
			one := func(kind string, rg index.Range, first []byte, want []rngRes) {
				got, over := collect(rg, first, len(want)+len(recs)+10)
				c.count("evaluations", 1)
				c.count("keys_iterated", len(got))
				if len(want) > 1 {
					c.seen("case", i, view, kind)
				}
				if d := diffRes(got, want, over); d != "" {
					c.violated("case %d, view %d, %s: %s", i, view, kind, d)
				}
			}
			// Random bounds
			for j := 0; j < 25; j++ {
				var o uint64
				if len(owners) > 0 && r.Intn(8) > 0 {
					o = owners[r.Intn(len(owners))]
				} else {
					o = poolOwner[r.Intn(len(poolOwner))]
				}
				pick := func() Key {
					ks := s.keys(o)
					if len(ks) > 0 && r.Intn(3) > 0 {
						nb := neighbours(r, o, ks[r.Intn(len(ks))])
						return nb[r.Intn(len(nb)-2)].k
					}
					return Key{poolObj[r.Intn(len(poolObj))], poolType[r.Intn(len(poolType))], poolOff[r.Intn(len(poolOff))]}
				}
				a, b := pick(), pick()
				if b.less(a) {
					a, b = b, a
				}
				if _, ok := s.v[o][b]; ok {
					// The documented and the actual treatment of the upper
					// bound itself differ; both are accepted by not asking.
					continue
				}
				c.guard(fmt.Sprintf("case %d range %d %v..%v view %d", i, o, a, b, view), func() {
					rg, first := ix.Range(o, bkey(a), bkey(b))
					one(fmt.Sprintf("range owner %d from %v to %v", o, a, b), rg, first, s.rng(o, view, func(k Key) bool { return !k.less(a) && k.less(b) }))
				})
			}
			// Prepared ranges
			sel := func(t uint8, obj uint64) func(Key) bool {
				return func(k Key) bool { return k.Type == t && k.Obj == obj }
			}
			c.guard(fmt.Sprintf("case %d prepared ranges view %d", i, view), func() {
				for _, o := range append([]uint64{5, 256, 999}, owners...) {
					for _, id := range []uint64{255, 256, 257, 258, 261} {
						rg, d := ix.DirItems(o, id)
						one(fmt.Sprintf("directory entries of %d/%d", o, id), rg, d, s.rng(o, view, sel(tDirItem, id)))
						rg, d = ix.XAttrItems(o, id)
						one(fmt.Sprintf("attributes of %d/%d", o, id), rg, d, s.rng(o, view, sel(tXattr, id)))
						rg2, e := ix.FileExtentItems(o, id)
						one(fmt.Sprintf("extents of %d/%d", o, id), rg2, e, s.rng(o, view, sel(tExtentData, id)))
					}
					for _, k := range s.keys(o) {
						if r.Intn(6) == 0 {
							rg, d := ix.RangeAll(o, k.Type, k.Obj)
							one(fmt.Sprintf("all of %d/%d/%d", o, k.Type, k.Obj), rg, d, s.rng(o, view, sel(k.Type, k.Obj)))
						}
					}
				}
				rg, ch := ix.Chunks()
				one("chunks", rg, ch, s.rng(3, view, sel(tChunkItem, 256)))
				rg, dv := ix.DevItems()
				one("devices", rg, dv, s.rng(3, view, sel(tDevItem, 1)))
				rg, ri := ix.Subvolumes()
				one("subvolumes", rg, ri, s.rng(1, view, func(k Key) bool {
					return k.Type == tRootItem && k.Obj >= 256 && k.Obj <= ^uint64(255)
				}))
			})
			// Full range
			c.guard(fmt.Sprintf("case %d full range view %d", i, view), func() {
				var want []rngRes
				for _, o := range owners {
					for _, k := range s.keys(o) {
						var gs []uint64
						for g := range s.v[o][k] {
							gs = append(gs, g)
						}
						sort.Slice(gs, func(a, b int) bool { return gs[a] < gs[b] })
						for _, g := range gs {
							want = append(want, rngRes{k, g, o, string(s.v[o][k][g])})
						}
					}
				}
				var got []rngRes
				over := false
				for rg, d := ix.FullRange(); rg.HasNext(); d = rg.Next() {
					if len(got) > len(want)+5 {
						over = true
						break
					}
					got = append(got, rngRes{mkey(rg.Key()), rg.Generation(), rg.Owner(), string(d)})
				}
				c.count("evaluations", 1)
				c.count("keys_iterated", len(got))
				if d := diffRes(got, want, over); d != "" {
					c.violated("case %d, view %d, full range: %s", i, view, d)
				}
			})
			// Several iterations and lookups at once
			c.guard(fmt.Sprintf("case %d iterations at once view %d", i, view), func() {
				var all []rngRes
				for _, o := range owners {
					for _, k := range s.keys(o) {
						var gs []uint64
						for g := range s.v[o][k] {
							gs = append(gs, g)
						}
						sort.Slice(gs, func(a, b int) bool { return gs[a] < gs[b] })
						for _, g := range gs {
							all = append(all, rngRes{k, g, o, string(s.v[o][k][g])})
						}
					}
				}
				type it struct {
					kind      string
					next      func() (rngRes, bool)
					want, got []rngRes
				}
				var its []*it
				for j := 0; j < 2+r.Intn(4); j++ {
					if r.Intn(3) == 0 || len(owners) == 0 {
						rg, d := ix.FullRange()
						first := true
						its = append(its, &it{kind: "full range", want: all, next: func() (rngRes, bool) {
							if !first {
								d = rg.Next()
							}
							first = false
							if !rg.HasNext() {
								return rngRes{}, false
							}
							return rngRes{mkey(rg.Key()), rg.Generation(), rg.Owner(), string(d)}, true
						}})
						continue
					}
					o := owners[r.Intn(len(owners))]
					ks := s.keys(o)
					k := ks[r.Intn(len(ks))]
					rg, d := ix.RangeAll(o, k.Type, k.Obj)
					first := true
					its = append(its, &it{kind: fmt.Sprintf("all of %d/%d/%d", o, k.Type, k.Obj), want: s.rng(o, view, func(x Key) bool { return x.Type == k.Type && x.Obj == k.Obj }), next: func() (rngRes, bool) {
						if !first {
							d = rg.Next()
						}
						first = false
						if !rg.HasNext() {
							return rngRes{}, false
						}
						return rngRes{mkey(rg.Key()), rg.Generation(), rg.Owner(), string(d)}, true
					}})
				}
				live := append([]*it{}, its...)
				for len(live) > 0 {
					j := r.Intn(len(live))
					x, ok := live[j].next()
					if ok {
						live[j].got = append(live[j].got, x)
					}
					if !ok || len(live[j].got) > len(live[j].want)+3 {
						live = append(live[:j], live[j+1:]...)
					}
					if len(owners) > 0 && r.Intn(3) == 0 {
						o := owners[r.Intn(len(owners))]
						ks := s.keys(o)
						ix.FindItem(o, bkey(ks[r.Intn(len(ks))]))
					}
				}
				c.count("evaluations", 1)
				c.count("iterations_at_once", len(its))
				for _, t := range its {
					if d := diffRes(t.got, t.want, len(t.got) > len(t.want)+2); d != "" {
						c.violated("case %d, view %d, %s during other iterations and lookups: %s", i, view, t.kind, d)
						return
					}
				}
			})
			if c.failed() {
				return
			}
		}
		if i == 1 {
			c.sample(map[string]any{"records": len(recs), "owners": owners})
		}
	})
}

func checkC24(c *Check) {
	sign := func(x int) int {
		if x < 0 {
			return -1
		}
		if x > 0 {
			return 1
		}
		return 0
	}
	ref := func(a, b Key) int {
		switch {
		case a.less(b):
			return -1
		case b.less(a):
			return 1
		}
		return 0
	}
	r := c.rng(0)
	u := func() uint64 {
		switch r.Intn(4) {
		case 0:
			return poolObj[r.Intn(len(poolObj))]
		case 1:
			return poolOff[r.Intn(len(poolOff))]
		case 2:
			return uint64(1) << uint(r.Intn(64))
		}
		return r.Uint64()
	}
	rk := func(b Key) Key {
		k := b
		if r.Intn(2) == 0 {
			k.Obj = u()
		}
		if r.Intn(2) == 0 {
			k.Off = u()
		}
		if r.Intn(2) == 0 {
			k.Type = uint8(r.Intn(256))
		}
		return k
	}
	n := c.pick(60000, 5000000)
	for i := 0; i < n && !c.failed(); i++ {
		a := rk(Key{u(), uint8(r.Intn(256)), u()})
		b := rk(a)
		d := rk(b)
		ks := [3]Key{a, b, d}
		var m [3][3]int
		for x := range ks {
			for y := range ks {
				m[x][y] = sign(btrfs.KeyCompare(bkey(ks[x]), bkey(ks[y])))
				if w := ref(ks[x], ks[y]); m[x][y] != w {
					c.violated("comparing %v with %v gives %d, expected sign %d", ks[x], ks[y], m[x][y], w)
				}
				if (m[x][y] == 0) != (ks[x] == ks[y]) {
					c.violated("comparing %v with %v gives %d", ks[x], ks[y], m[x][y])
				}
			}
		}
		c.count("evaluations", 9)
		if a != b && b != d {
			c.seen("case", a, b, d)
		}
		if i == 0 {
			c.sample([]string{a.String(), b.String(), d.String()})
		}
	}
	// All pairs of a small grid with adjacent types
	var grid []Key
	for _, t := range []uint8{0, 1, 127, 128, 254, 255} {
		for _, o := range []uint64{0, 1, 1 << 31, 1 << 32, 1 << 63, ^uint64(0)} {
			for _, f := range []uint64{0, 1, 1 << 31, 1 << 32, 1 << 63, ^uint64(0)} {
				grid = append(grid, Key{o, t, f})
			}
		}
	}
	for _, a := range grid {
		for _, b := range grid {
			if w, g := ref(a, b), sign(btrfs.KeyCompare(bkey(a), bkey(b))); w != g {
				c.violated("comparing %v with %v gives sign %d, expected %d", a, b, g, w)
			}
			c.count("evaluations", 1)
		}
	}
	// Keys of the old format
	for i := 0; i < n/4 && !c.failed(); i++ {
		o, k, g := u(), rk(Key{u(), uint8(r.Intn(256)), u()}), u()
		c.guard("converting a key", func() {
			x := index.NewIndexKeyFromV1(rawKey(recKey{o, k, g}))
			if x.Owner() != o || mkey(x.Key()) != k || x.Type() != k.Type || x.ObjectID() != k.Obj || x.Offset() != k.Off || x.Generation() != g {
				c.violated("the old key of owner %d, %v, generation %d becomes owner %d, %v, generation %d", o, k, g, x.Owner(), mkey(x.Key()), x.Generation())
			}
		})
		c.count("keys_converted", 1)
	}
	// The index iterates in this order.
	c.par(c.pick(60, 1500), func(i int) {
		r := c.rng(i + 1)
		path := filepath.Join(c.dir("c24"), fmt.Sprint(i))
		style := i % 3
		recs := randRecs(r, 20+r.Intn(100), style)
		buildIndex(path, recs)
		ix := openRO(path)
		defer ix.Close()
		c.guard("iterating the index", func() {
			var po uint64
			var pk btrfs.Key
			var pg uint64
			first, steps := true, 0
			for rg, _ := ix.FullRange(); rg.HasNext() && steps < len(recs)+5; rg.Next() {
				o, k, g := rg.Owner(), rg.Key(), rg.Generation()
				if !first && po == o {
					cmp := btrfs.KeyCompare(pk, k)
					if cmp > 0 || cmp == 0 && pg >= g || mkey(k).less(mkey(pk)) {
						c.violated("index case %d: owner %d: %v@%d comes before %v@%d", i, o, mkey(pk), pg, mkey(k), g)
					}
				}
				po, pk, pg, first = o, k, g, false
				steps++
				c.count("index_steps", 1)
			}
		})
	})
}

func checkC08(c *Check) {
	n := c.pick(200, 20000)
	c.par(n, func(i int) {
		r := c.rng(i)
		path := filepath.Join(c.dir("c08"), fmt.Sprint(i))
		ix := openRW(path, UUID{1}, 4096, ^uint64(0))
		type ch struct {
			log uint64
			c   ChunkV
		}
		var chunks []ch
		nc := 1 + r.Intn(30)
		switch i % 6 {
		case 0:
			nc = 1
		case 1:
			nc = 2
		}
		if i%100 == 64 {
			nc = 2000 + r.Intn(5000)
			c.count("maps_of_thousands_of_chunks", 1)
		}
		pos := uint64(r.Intn(3)) * 1 << 20
		if r.Intn(4) == 0 {
			pos = r.Uint64() >> uint(2+r.Intn(40))
		}
		if i%5 == 0 { // addresses are unsigned
			pos = 1<<63 - uint64(r.Intn(1<<36))
			if r.Intn(3) == 0 {
				pos = ^uint64(0) - 1<<42
			}
		}
		for j := 0; j < nc; j++ {
			l := uint64(1+r.Intn(1024)) << uint(12+r.Intn(12))
			if r.Intn(6) == 0 {
				l = uint64(1 + r.Intn(5))
			}
			if i%5 != 0 && r.Intn(10) == 0 { // lengths have 64 bits, too
				l = 1<<uint(30+r.Intn(18)) + uint64(r.Intn(2))*uint64(r.Intn(1<<20))
				c.count("huge_chunks", 1)
			}
			cv := ChunkV{Len: l, Type: uint64(r.Intn(64))}
			for k := 0; k < 1+r.Intn(3); k++ {
				cv.Stripes = append(cv.Stripes, StripeV{uint64(1 + r.Intn(4)), r.Uint64() >> uint(4+r.Intn(40))})
			}
			chunks = append(chunks, ch{pos, cv})
			pos += l
			if r.Intn(2) == 0 {
				pos += uint64(r.Intn(1 << 22))
			}
		}
		var recs []Rec
		taken, damaged := map[uint64]bool{}, map[uint64]bool{}
		for _, x := range chunks {
			taken[x.log] = true
			gens := map[uint64]bool{}
			for k := 0; k < 1+r.Intn(3); k++ {
				gens[1+uint64(r.Intn(50))] = true
			}
			max := uint64(0)
			for g := range gens {
				if g > max {
					max = g
				}
			}
			for _, g := range poolAsc(gens) {
				cv := x.c
				if g != max { // older versions say something else
					cv = ChunkV{Len: x.c.Len, Type: 1, Stripes: []StripeV{{9, uint64(r.Intn(1 << 30))}}}
					if r.Intn(2) == 0 {
						cv.Len = 1 + uint64(r.Int63n(int64(x.c.Len)))
					}
				}
				recs = append(recs, Rec{Owner: 3, Key: Key{256, tChunkItem, x.log}, Gen: g, Data: encChunk(cv), V: cv})
			}
		}
		// Damaged chunks without stripes
		for k := r.Intn(4); k > 0; k-- {
			at := uint64(r.Intn(1 << 20))
			if x := chunks[r.Intn(nc)]; r.Intn(3) > 0 && x.c.Len > 1 {
				at = x.log + 1 + r.Uint64()%(x.c.Len-1)
			}
			if taken[at] {
				continue
			}
			taken[at] = true
			damaged[at] = true
			b := append(encChunk(ChunkV{Len: 1 << uint(12+r.Intn(20)), Type: 1}), make([]byte, 32+r.Intn(40))...)
			recs = append(recs, Rec{Owner: 3, Key: Key{256, tChunkItem, at}, Gen: uint64(1 + r.Intn(60)), Data: b})
			c.count("damaged_chunks", 1)
		}
		// Things that are not chunks nearby
		recs = append(recs, Rec{Owner: 3, Key: Key{1, tDevItem, 1}, Gen: 5, Data: make([]byte, 98)},
			Rec{Owner: 2, Key: Key{256, tChunkItem, 4096}, Gen: 60, Data: encChunk(ChunkV{Len: 1 << 40, Stripes: []StripeV{{7, 7}}})},
			Rec{Owner: 4, Key: Key{256, tChunkItem, 0}, Gen: 60, Data: encChunk(ChunkV{Len: 1 << 40, Stripes: []StripeV{{7, 7}}})})
		r.Shuffle(len(recs), func(a, b int) { recs[a], recs[b] = recs[b], recs[a] })
		// ask translates addresses of all chunks recorded so far and compares
		// them with the version that the view shows.
		ask := func(when string, recs []Rec, view uint64, few bool) {
			type cand struct {
				gen uint64
				cv  ChunkV
			}
			cur := map[uint64]cand{}
			for _, rec := range recs {
				if rec.Owner != 3 || rec.Key.Type != tChunkItem || rec.V == nil {
					continue
				}
				x, ok := cur[rec.Key.Off]
				better := rec.Gen <= view && (rec.Gen > x.gen || x.gen > view) || rec.Gen > view && x.gen > view && rec.Gen < x.gen
				if !ok || better {
					cur[rec.Key.Off] = cand{rec.Gen, rec.V.(ChunkV)}
				}
			}
			var starts []uint64
			for at := range cur {
				starts = append(starts, at)
			}
			sort.Slice(starts, func(a, b int) bool { return starts[a] < starts[b] })
			for _, j := range r.Perm(len(starts)) {
				at := starts[j]
				x := cur[at].cv
				addrs := []uint64{0, 1, x.Len / 2, x.Len - 2, x.Len - 1}
				for k := 0; k < 4; k++ {
					addrs = append(addrs, r.Uint64()%x.Len)
				}
				if few {
					addrs = addrs[4:6]
				}
				for _, a := range addrs {
					if a >= x.Len {
						continue
					}
					c.guard(fmt.Sprintf("case %d address %d", i, at+a), func() {
						dev, off := ix.Physical(at + a)
						c.count("evaluations", 1)
						if len(starts) > 1 {
							c.seen("case", i, j, a)
						}
						if s := x.Stripes[0]; dev != s.Dev || off != s.Off+a {
							c.violated("case %d %s: %d chunks seen at generation %d; logical %d is byte %d of the chunk at %d (length %d) and must be at device %d offset %d, got device %d offset %d", i, when, len(starts), view, at+a, a, at, x.Len, s.Dev, s.Off+a, dev, off)
						}
						if d, o, n := ix.PhysicalRange(at + a); d != dev || o != off || n != x.Len-a {
							c.violated("case %d %s: %d chunks seen at generation %d; logical %d is byte %d of the chunk at %d (length %d), but is followed by %d bytes at device %d offset %d", i, when, len(starts), view, at+a, a, at, x.Len, n, d, o)
						}
					})
				}
			}
			// Addresses of no chunk: before the first, in gaps, behind the last
			if len(damaged) > 0 || len(starts) == 0 {
				return
			}
			out := []uint64{0, starts[0] - 1, 1 << 62, 1 << 63, ^uint64(0)}
			for j, at := range starts {
				end := at + cur[at].cv.Len
				if j+1 == len(starts) || end < starts[j+1] {
					out = append(out, end)
					if j+1 < len(starts) {
						out = append(out, starts[j+1]-1)
					}
				}
			}
			for _, a := range out {
				j := sort.Search(len(starts), func(j int) bool { return starts[j] > a }) - 1
				if j >= 0 && a-starts[j] < cur[starts[j]].cv.Len {
					continue
				}
				c.guard(fmt.Sprintf("case %d address %d of no chunk", i, a), func() {
					dev, off := ix.Physical(a)
					c.count("addresses_in_no_chunk", 1)
					if dev != 0 || off != 0 {
						c.violated("case %d %s: no chunk contains logical address %d at generation %d, but it translates to device %d offset %d", i, when, a, view, dev, off)
					}
				})
			}
		}
		live := i%4 == 1 // queries between insertions
		for n, rec := range recs {
			raw := live && r.Intn(5) == 0
			if raw { // an upgrade records the same way
				boom := errors.New("no")
				for k := r.Intn(3); k >= 0; k-- {
					err := ix.RawTx(func(_ *bbolt.DB, _ *bbolt.Tx, b *bbolt.Bucket) error {
						must(b.Put(rawKey(recKey{rec.Owner, rec.Key, rec.Gen}), append(itemBytes(rec.Key, 0, uint32(len(rec.Data))), rec.Data...)))
						if k > 0 {
							return boom
						}
						return nil
					})
					if k == 0 {
						must(err)
					} else {
						ask(fmt.Sprintf("after %d insertions and a failed transaction", n), recs[:n], ^uint64(0), true)
					}
				}
				c.count("raw_transactions", 1)
			} else {
				mustInsert(ix, rec)
			}
			if live && (raw || r.Intn(6) == 0) {
				ask(fmt.Sprintf("after %d insertions", n+1), recs[:n+1], ^uint64(0), true)
				c.count("queries_between_insertions", 1)
			}
			if live && r.Intn(9) == 0 {
				must(ix.Commit())
			}
		}
		must(ix.Commit())
		ix.Close()
		ix = openRO(path)
		defer ix.Close()
		ask("reopened", recs, ^uint64(0), false)
		for k := 0; k < 3; k++ {
			ix.Generation = uint64(r.Intn(60))
			ask("with another view", recs, ix.Generation, true)
		}
		if i == 7 {
			c.sample(map[string]any{"chunks": len(chunks), "first": fmt.Sprint(chunks[0])})
		}
	})
}

func poolAsc(m map[uint64]bool) []uint64 {
	var out []uint64
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// recsOf returns the records in a fixed order.
func recsOf(m map[recKey]Rec) []Rec {
	var out []Rec
	for _, r := range m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Owner != b.Owner {
			return a.Owner < b.Owner
		}
		if a.Key != b.Key {
			return a.Key.less(b.Key)
		}
		return a.Gen < b.Gen
	})
	return out
}

func checkC09(c *Check) {
	n := c.pick(40, 1500)
	c.par(n, func(i int) {
		r := c.rng(i)
		fs := newFS(r, 16384, minImageSize(16384))
		generate(fs, genOpts{entries: 20 + r.Intn(60), subvols: r.Intn(6), orphans: r.Intn(2), gens: r.Intn(4), specials: true, collide: i%2 == 0, badHash: i%3 == 0, wildNames: i%4 == 0, maxFile: 2, deep: 5,
			chain: i % 6 / 5 * r.Intn(150), chainName: []int{3, 40, 254}[r.Intn(3)], wide: i % 8 / 7 * (1 - i%3&1) * 900})
		recs := fs.records(nil)
		v := fs.view(recs)
		path := filepath.Join(c.dir("c09"), fmt.Sprint(i))
		buildIndex(path, recsOf(recs))
		ix := openRO(path)
		defer ix.Close()
		// The model: walk component by component.
		lookup := func(owner uint64, p string) (tree uint64, res *EntryV) {
			o, ino := owner, uint64(256)
			for _, comp := range strings.Split(strings.TrimLeft(p, "/"), "/") {
				res = nil
				for _, e := range v.entries(o, ino) {
					if e.Name == comp {
						e := e
						res = &e
						break
					}
				}
				if res == nil {
					return o, nil
				}
				tree = o
				o, ino = res.target(o)
			}
			return tree, res
		}
		var paths []string
		v.walk(5, 256, "", map[[2]uint64]bool{}, func(nd Node) {
			paths = append(paths, nd.Path)
		})
		ask := func(owner uint64, p string) {
			c.guard(fmt.Sprintf("case %d path %q", i, p), func() {
				d := ix.FindDirItemForPath(owner, p)
				tree, want := lookup(owner, p)
				c.count("evaluations", 1)
				if o, d2 := ix.FindOwnedDirItemForPath(owner, p); string(d2) != string(d) || want != nil && o != tree {
					c.violated("case %d: %q is looked up in tree %d; the other lookup found %q in tree %d, and the model an entry of tree %d", i, p, owner, d2.Name(), o, tree)
				}
				if want == nil || strings.Contains(p, "/") {
					c.seen("case", i, owner, p)
				}
				switch {
				case want == nil && d != nil:
					c.violated("case %d: %q does not exist but lookup in tree %d found %q -> %v", i, p, owner, d.Name(), d.Location())
				case want != nil && d == nil:
					c.violated("case %d: %q exists in tree %d but lookup found nothing", i, p, owner)
				case want != nil:
					c.count("found", 1)
					if d.Name() != want.Name || mkey(d.Location()) != want.Loc || d.Type() != want.Type || d.IsSubvolume() != want.IsSub() || d.IsDir() != (want.Type == ftDir) {
						c.violated("case %d: %q must be %+v, lookup found %q -> %v type %d", i, p, *want, d.Name(), d.Location(), d.Type())
					}
				}
			})
		}
		for _, p := range paths {
			ask(5, p)
			ask(5, "/"+p)
			for k := 0; k < 3; k++ {
				q := p
				switch r.Intn(9) {
				case 0:
					q = p + "x"
				case 1:
					q = p[:len(p)-1]
				case 2:
					q = p + "/" + randName(r, 3)
				case 3:
					q = strings.ToUpper(p)
				case 4:
					cs := strings.Split(p, "/")
					cs[r.Intn(len(cs))] = randName(r, 4)
					q = strings.Join(cs, "/")
				case 5:
					cs := strings.Split(p, "/")
					if len(cs) > 1 {
						x := r.Intn(len(cs) - 1)
						cs = append(cs[:x], cs[x+1:]...)
						q = strings.Join(cs, "/")
					}
				case 6:
					o := paths[r.Intn(len(paths))]
					q = p + "/" + o
				case 7: // a name with the same hash as a component
					pr := findCollisions()[r.Intn(12)]
					cs := strings.Split(p, "/")
					cs[len(cs)-1] = pr[r.Intn(2)]
					q = strings.Join(cs, "/")
				case 8:
					o := paths[r.Intn(len(paths))]
					cs := strings.Split(o, "/")
					q = cs[len(cs)-1]
				}
				if q != "" && !strings.HasSuffix(q, "/") && !strings.HasPrefix(q, "/") && !strings.Contains(q, "//") {
					ask(5, q)
				}
			}
		}
		for _, s := range v.subvols() {
			v.walk(s, 256, "", map[[2]uint64]bool{}, func(nd Node) { ask(s, nd.Path) })
		}
		if i == 0 && len(paths) > 3 {
			c.sample(paths[:4])
		}
	})
}

func checkC07(c *Check) {
	rounds := c.pick(30, 1200)
	for i := 0; i < rounds && !c.failed(); i++ {
		if c.only >= 0 && i != c.only {
			continue
		}
		r := c.rng(i)
		fs := newFS(r, 16384, minImageSize(16384))
		generate(fs, genOpts{entries: 30 + r.Intn(40), subvols: 3, orphans: 1, gens: 2, xattrs: true, specials: true, maxFile: 2})
		recs := fs.records(nil)
		v := fs.view(recs)
		path := filepath.Join(c.dir("c07"), fmt.Sprint(i))
		buildIndex(path, recsOf(recs))
		type q struct {
			name string
			fn   func(ix *index.Index) string
		}
		var qs []q
		add := func(name string, fn func(ix *index.Index) string) { qs = append(qs, q{name, fn}) }
		dump := func(rg index.Range, d []byte) string {
			res, over := collect(rg, d, 100000)
			return fmt.Sprint(res, over)
		}
		v.walk(5, 256, "", map[[2]uint64]bool{}, func(nd Node) {
			p, o, ino := nd.Path, nd.Owner, nd.Ino
			add("path "+p, func(ix *index.Index) string { return string(ix.FindDirItemForPath(5, p)) })
			add("inode", func(ix *index.Index) string { return string(ix.FindInodeItem(o, ino)) })
			add("entries", func(ix *index.Index) string { a, b := ix.DirItems(o, ino); return dump(a, b) })
			add("xattrs", func(ix *index.Index) string { a, b := ix.XAttrItems(o, ino); return dump(a, b) })
			add("extents", func(ix *index.Index) string { a, b := ix.FileExtentItems(o, ino); return dump(a, b) })
			add("first extent", func(ix *index.Index) string { return string(ix.FindFileExtentItem(o, ino)) })
			for _, e := range v.extents(o, ino) {
				if e.Type != exInline && e.Disk != 0 {
					l, n := e.Disk, e.DiskNum
					add("physical", func(ix *index.Index) string { d, p := ix.Physical(l); return fmt.Sprint(d, p) })
					add("extent item", func(ix *index.Index) string { return string(ix.FindExtentItem(l, n)) })
				}
			}
		})
		// Things that do not exist, which everybody asks for as well
		for k := 0; k < 12; k++ {
			o, ino := []uint64{5, 256, 257, 4711}[k%4], uint64(1<<33+k)
			p := fmt.Sprintf("missing%d/x", k)
			add("missing path", func(ix *index.Index) string { return string(ix.FindDirItemForPath(o, p)) })
			add("missing owner's path", func(ix *index.Index) string {
				w, d := ix.FindOwnedDirItemForPath(o, p)
				return fmt.Sprint(w, d)
			})
			add("missing inode", func(ix *index.Index) string { return string(ix.FindInodeItem(o, ino)) })
			add("missing entries", func(ix *index.Index) string { a, b := ix.DirItems(o, ino); return dump(a, b) })
			add("missing xattrs", func(ix *index.Index) string { a, b := ix.XAttrItems(o, ino); return dump(a, b) })
			add("missing extents", func(ix *index.Index) string { a, b := ix.FileExtentItems(o, ino); return dump(a, b) })
			add("missing first extent", func(ix *index.Index) string { return string(ix.FindFileExtentItem(o, ino)) })
			add("missing extent item", func(ix *index.Index) string { return string(ix.FindExtentItem(1<<50+ino, 4096)) })
			add("address in no chunk", func(ix *index.Index) string {
				d, p, n := ix.PhysicalRange(1<<50 + ino)
				return fmt.Sprint(d, p, n)
			})
			add("missing item", func(ix *index.Index) string {
				return string(ix.FindItem(o, bkey(Key{ino, tInodeRef, uint64(k)})))
			})
			add("missing range", func(ix *index.Index) string {
				a, b := ix.RangeAll(o, tInodeRef, ino)
				return dump(a, b)
			})
		}
		for k := 0; k < 8; k++ {
			add("chunks", func(ix *index.Index) string { a, b := ix.Chunks(); return dump(a, b) })
			add("devices", func(ix *index.Index) string { a, b := ix.DevItems(); return dump(a, b) })
			add("subvolumes", func(ix *index.Index) string { a, b := ix.Subvolumes(); return dump(a, b) })
			add("metadata", func(ix *index.Index) string {
				m := ix.Metadata()
				return fmt.Sprint(m.FSID(), m.BlockSize(), m.Generation())
			})
			add("full range", func(ix *index.Index) string {
				n := 0
				for rg, _ := ix.FullRange(); rg.HasNext(); rg.Next() {
					n++
				}
				return fmt.Sprint(n)
			})
		}
		// Reference answers, each from a query made alone.
		want := make([]string, len(qs))
		ix := openRO(path)
		for j := range qs {
			want[j] = qs[j].fn(ix)
			if want[j] != "" {
				c.count("nonempty_answers", 1)
			}
		}
		ix.Close()
		ix = openRO(path)
		g := []int{2, 4, 8, 16, 32}[i%5]
		var wg sync.WaitGroup
		startCh := make(chan bool)
		orders := make([][]int, g)
		for w := range orders {
			orders[w] = r.Perm(len(qs))
			if i%2 == 0 { // everybody starts with the same kind of query
				pre := []int{}
				for j, x := range qs {
					if x.name == "physical" {
						pre = append(pre, j)
						break
					}
				}
				orders[w] = append(pre, orders[w]...)
			}
			if len(orders[w]) > 300 {
				orders[w] = orders[w][:300]
			}
			if i%3 == 0 && w > 0 {
				orders[w] = orders[0]
			}
		}
		for w := 0; w < g; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-startCh
				for _, j := range orders[w] {
					c.guard("query "+qs[j].name, func() {
						if got := qs[j].fn(ix); got != want[j] {
							c.violated("round %d: %s answered %.300q among %d concurrent readers, %.300q alone", i, qs[j].name, got, g, want[j])
						}
					})
				}
				c.count("evaluations", len(orders[w]))
			}(w)
		}
		close(startCh)
		wg.Wait()
		for w := range orders {
			c.seen("case", fmt.Sprint(i, orders[w]))
		}
		ix.Close()
	}
	c.sample("interleaved queries: path, inode, entries, xattrs, extents, physical, chunks, devices, subvolumes, metadata, full range")
}

// tryRO opens an index for reading, or returns nil.
func tryRO(path string) *index.Index {
	ix, err := index.OpenReadOnly(path)
	if err != nil {
		return nil
	}
	return ix
}

// openROv opens an index for reading and reports a failure as a violation.
func openROv(c *Check, what, path string) *index.Index {
	ix, err := index.OpenReadOnly(path)
	if err != nil {
		c.violated("%s: the metadata file does not open: %v", what, err)
		return nil
	}
	return ix
}
