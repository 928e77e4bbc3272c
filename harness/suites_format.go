package main

// Saved files (specification Format, trace specification TraceFormat): the files the code writes are read
// by a reader that knows the layout alone, and files with that layout made by an independent writer are
// read by the code.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/deNULL/dawg"
)

func init() { checks["C12"] = checkC12 }

// ---- the layout -----------------------------------------------------------

func uLeaf(u uint32) bool   { return u>>31 == 1 }
func uLabel(u uint32) int   { return int(u & 0xff) }
func uEnds(u uint32) bool   { return u>>8&1 == 1 }
func uExt(u uint32) bool    { return u>>9&1 == 1 }
func uValue(u uint32) int32 { return int32(u & 0x7fffffff) }
func uOffset(u uint32) uint32 {
	o := u >> 10 & 0x1fffff
	if uExt(u) {
		return o << 8
	}
	return o
}
func u4(u uint32) []int {
	return []int{int(u & 255), int(u >> 8 & 255), int(u >> 16 & 255), int(u >> 24)}
}

type files struct {
	dict, guide, ranked, index, rindex []byte
	F                                  []uint32
	G, R                               [][2]byte
	I, RI                              []uint32
	ok                                 bool // counts and lengths agree
}

func units32(b []byte) ([]uint32, bool) {
	if len(b) < 4 {
		return nil, false
	}
	n := int(binary.LittleEndian.Uint32(b))
	if len(b) != 4+4*n {
		return nil, false
	}
	r := make([]uint32, n)
	for i := range r {
		r[i] = binary.LittleEndian.Uint32(b[4+4*i:])
	}
	return r, true
}
func pairs(b []byte) ([][2]byte, bool) {
	if len(b) < 4 {
		return nil, false
	}
	n := int(binary.LittleEndian.Uint32(b))
	if len(b) != 4+2*n {
		return nil, false
	}
	r := make([][2]byte, n)
	for i := range r {
		r[i] = [2]byte{b[4+2*i], b[5+2*i]}
	}
	return r, true
}
func parse(dict, guide, ranked, index, rindex []byte) *files {
	f := &files{dict: dict, guide: guide, ranked: ranked, index: index, rindex: rindex}
	var ok [5]bool
	f.F, ok[0] = units32(dict)
	f.G, ok[1] = pairs(guide)
	f.R, ok[2] = pairs(ranked)
	f.I, ok[3] = units32(index)
	f.RI, ok[4] = units32(rindex)
	f.ok = ok == [5]bool{true, true, true, true, true}
	return f
}

func head(b []byte) []int {
	if len(b) < 4 {
		return []int{0, 0, 0, 255}
	}
	return B(b[:4])
}
func in4(b []byte) [][]int { // the body in fours
	r := [][]int{}
	for i := 4; i+4 <= len(b); i += 4 {
		r = append(r, B(b[i:i+4]))
	}
	return r
}
func in2(b []byte) [][]int {
	r := [][]int{}
	for i := 4; i+2 <= len(b); i += 2 {
		r = append(r, B(b[i:i+2]))
	}
	return r
}

func (f *files) wholeEvs(L Lex, unused int) []Ev {
	us := in4(f.dict)
	return []Ev{
		{"op": "lexicon", "below": 0, "total": len(L), "win": L.json()},
		{"op": "dictfile", "head": head(f.dict), "units": us, "unused": unused},
		{"op": "guidefile", "head": head(f.guide), "units": us, "pairs": in2(f.guide)},
		{"op": "rankedfile", "head": head(f.ranked), "units": us, "pairs": in2(f.ranked)},
		{"op": "indexfile", "head": head(f.index), "units": us, "counts": in4(f.index)},
		{"op": "indexfile", "head": head(f.rindex), "units": us, "counts": in4(f.rindex)},
	}
}

// walkFile looks at the units at every position (at most limit), calling obs with a verdict and the
// events that show it.
func (f *files) walkFile(L Lex, limit int, obs func(ok bool, mk func() []Ev)) {
	F := f.F
	type fr struct {
		p      []byte
		i      uint32
		lo, hi int
	}
	obs(len(F) > 0 && (len(L) == 0 && (len(f.G) == 0 && len(f.R) == 0 || len(f.G) == len(F) && len(f.R) == len(F)) || len(f.G) == len(F) && len(f.R) == len(F)) && len(f.I) == len(F) && len(f.RI) == len(F),
		func() []Ev {
			cs := []int{len(f.I), len(f.RI)}
			if len(L) > 0 {
				cs = append(cs, len(f.G), len(f.R))
			}
			return []Ev{{"op": "fsizes", "units": len(F), "counts": cs}}
		})
	if len(F) == 0 || len(f.I) != len(F) || len(f.RI) != len(F) || len(L) > 0 && (len(f.G) != len(F) || len(f.R) != len(F)) {
		return
	}
	at := func(j uint32) uint32 { return F[j] }
	st := []fr{{nil, 0, 0, len(L)}}
	for n := 0; len(st) > 0 && n < limit; n++ {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		u := F[x.i]
		base := x.i ^ uOffset(u)
		bad := false
		step := func(b int, want bool) {
			j := base ^ uint32(b)
			inside := int(j) < len(F)
			var t uint32
			if inside {
				t = at(j)
			}
			can := inside && !uLeaf(t) && uLabel(t) == b
			ok := inside && can == want
			if !ok {
				bad = true
			}
			obs(ok, func() []Ev {
				q := append(append([]byte{}, x.p...), byte(b))
				jj := int(j)
				return []Ev{L.windowEv(1, q), {"op": "fstep", "p": B(x.p), "b": b, "i": int(x.i), "u": u4(u), "j": jj, "t": u4(t), "inside": inside}}
			})
		}
		// the end of a key
		own := 0
		k := x.lo
		want := int32(-1)
		if k < x.hi && len(L[k].K) == len(x.p) {
			want = L[k].V
			own = 1
			k++
		}
		{
			inside := int(base) < len(F)
			var t uint32
			if inside {
				t = at(base)
			}
			ok := uEnds(u) == (want >= 0) && (want < 0 || inside && uLeaf(t) && uValue(t) == want)
			if !ok {
				bad = true
			}
			obs(ok, func() []Ev {
				return []Ev{L.windowEv(1, x.p), {"op": "fvalue", "p": B(x.p), "i": int(x.i), "u": u4(u), "j": int(base), "t": u4(t), "inside": inside}}
			})
		}
		var labels []int
		var kids []fr
		var best []int32
		for k < x.hi {
			b := L[k].K[len(x.p)]
			j := k + sort.Search(x.hi-k, func(d int) bool { return L[k+d].K[len(x.p)] != b })
			labels = append(labels, int(b))
			kids = append(kids, fr{append(append(make([]byte, 0, len(x.p)+1), x.p...), b), base ^ uint32(b), k, j})
			m := int32(-1)
			for q := k; q < j; q++ {
				if L[q].V > m {
					m = L[q].V
				}
			}
			best = append(best, m)
			k = j
		}
		li := 0
		for b := 1; b < 256; b++ {
			w := li < len(labels) && labels[li] == b
			if w {
				li++
			}
			step(b, w)
		}
		if bad {
			return
		}
		if len(L) == 0 {
			return
		}
		// guides and indices
		sibs, ok := []int{}, true
		child := int(f.G[x.i][0])
		for q := range labels {
			s := int(f.G[kids[q].i][1])
			sibs = append(sibs, s)
			nx := 0
			if q+1 < len(labels) {
				nx = labels[q+1]
			}
			ok = ok && s == nx
		}
		ok = ok && (len(labels) == 0 && child == 0 || len(labels) > 0 && child == labels[0])
		obs(ok, func() []Ev { return []Ev{{"op": "fguide", "labels": ints(labels), "child": child, "sibs": sibs}} })

		rl, rb := []int{}, []int32{}
		rs := []int{}
		if own == 1 {
			rl, rb, rs = append(rl, 0), append(rb, want), append(rs, int(f.R[base][1]))
		}
		for q := range labels {
			rl, rb, rs = append(rl, labels[q]), append(rb, best[q]), append(rs, int(f.R[kids[q].i][1]))
		}
		rchild := int(f.R[x.i][0])
		obs(rankedNodeOK(rl, rb, rchild, rs), func() []Ev {
			return []Ev{{"op": "franked", "labels": rl, "best": rb, "child": rchild, "sibs": rs}}
		})
		for _, I := range [][]uint32{f.I, f.RI} {
			sum := uint32(own)
			ks := []int{}
			for q := range kids {
				sum += uint32(kids[q].hi - kids[q].lo)
				ks = append(ks, kids[q].hi-kids[q].lo)
			}
			cnt := I[x.i]
			obs(cnt == sum, func() []Ev {
				return []Ev{{"op": "findex", "own": own, "kids": ks, "count": u4(cnt)}}
			})
		}
		st = append(st, kids...)
	}
}

func ints(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

func rankedNodeOK(labels []int, best []int32, child int, sibs []int) bool {
	if len(labels) == 0 {
		return false
	}
	at := map[int]int{}
	for i, l := range labels {
		at[l] = i
	}
	seen := map[int]bool{}
	cur := child
	for n := 0; n < len(labels); n++ {
		i, ok := at[cur]
		if !ok || seen[cur] {
			return false
		}
		seen[cur] = true
		nx := sibs[i]
		if n+1 < len(labels) {
			j, ok := at[nx]
			if !ok || best[i] < best[j] {
				return false
			}
		} else if nx != 0 {
			return false
		}
		cur = nx
	}
	return true
}

// used counts the units that keys pass through, and the root.
func (f *files) used() int {
	F := f.F
	seen := make([]bool, len(F))
	n := 0
	st := []uint32{0}
	mark := func(j uint32) bool {
		if seen[j] {
			return false
		}
		seen[j] = true
		n++
		return true
	}
	mark(0)
	for len(st) > 0 {
		i := st[len(st)-1]
		st = st[:len(st)-1]
		base := i ^ uOffset(F[i])
		if uEnds(F[i]) && int(base) < len(F) {
			mark(base)
		}
		for b := 1; b < 256; b++ {
			j := base ^ uint32(b)
			if int(j) < len(F) && !uLeaf(F[j]) && uLabel(F[j]) == b && mark(j) {
				st = append(st, j)
			}
		}
	}
	return n
}

func savedFiles(f *family) *files {
	w := func(p part) []byte {
		var b bytes.Buffer
		p.Write(&b)
		return b.Bytes()
	}
	return parse(w(f.dict), w(f.guide), w(f.rg), w(f.idx), w(f.ridx))
}

// judgeFiles compares files with the lexicon they should hold.
func judgeFiles(c *Ctx, L Lex, f *files, unused int, limit int) {
	whole := len(L) <= 24 && len(f.F) <= 768
	for _, e := range L {
		whole = whole && len(e.K) <= 12
	}
	good := f.ok
	if !f.ok && !whole {
		c.Obs(false, func() []Ev {
			return []Ev{{"op": "fsizes", "units": len(f.dict), "counts": []int{-1}}}
		})
		return
	}
	if whole {
		if f.ok {
			f.walkFile(L, limit, func(ok bool, mk func() []Ev) {
				good = good && ok
				c.nobs++
			})
			good = good && (unused < 0 || len(f.F)-f.used() == unused)
		}
		u := unused
		if u < 0 {
			u = len(f.F) - f.used()
		}
		if !good || c.sampled {
			c.Obs(good, func() []Ev { return f.wholeEvs(L, u) })
		}
		return
	}
	f.walkFile(L, limit, c.Obs)
	if unused >= 0 && len(c.sus) == 0 {
		n := f.used()
		c.Obs(len(f.F)-n == unused, func() []Ev {
			return []Ev{{"op": "funused", "units": len(f.F), "used": n, "unused": unused}}
		})
	}
}

// ---- an independent writer --------------------------------------------------

type fnode struct {
	labels []int
	kids   []*fnode
	val    int32 // -1: no key ends here
	n      int
	best   int32
	base   uint32
	placed bool
	first  byte // of the ranked chain
}

// tree of the keys, equal subtrees shared when share is set.
func treeOf(L Lex, depth int, share map[string]*fnode, ids map[*fnode]int) *fnode {
	t := &fnode{val: -1, best: -1}
	i := 0
	if len(L) > 0 && len(L[0].K) == depth {
		t.val = L[0].V
		t.best = t.val
		t.n = 1
		i = 1
	}
	for i < len(L) {
		b := L[i].K[depth]
		j := i
		for j < len(L) && L[j].K[depth] == b {
			j++
		}
		k := treeOf(L[i:j], depth+1, share, ids)
		t.labels, t.kids = append(t.labels, int(b)), append(t.kids, k)
		t.n += k.n
		if k.best > t.best {
			t.best = k.best
		}
		i = j
	}
	if share != nil {
		var sb strings.Builder
		sb.WriteString(strconv.Itoa(int(t.val)))
		for q := range t.labels {
			sb.WriteString("," + strconv.Itoa(t.labels[q]) + ":" + strconv.Itoa(ids[t.kids[q]]))
		}
		if o := share[sb.String()]; o != nil {
			return o
		}
		share[sb.String()] = t
		ids[t] = len(ids) + 1
	}
	return t
}

type writer struct {
	rng   *rand.Rand
	F     []uint32
	taken []bool
	bases map[uint32]bool
	G, R  [][2]byte
	I     []uint32
	far   bool
}

func (w *writer) grow(n int) {
	for len(w.F) < n {
		w.F = append(w.F, make([]uint32, 256)...)
		w.taken = append(w.taken, make([]bool, 256)...)
		w.G = append(w.G, make([][2]byte, 256)...)
		w.R = append(w.R, make([][2]byte, 256)...)
		w.I = append(w.I, make([]uint32, 256)...)
	}
}
func fits(rel uint32) bool { return rel < 1<<21 || rel&0xff == 0 && rel < 1<<29 }

func (w *writer) place(t *fnode, i uint32) uint32 {
	free := func(b uint32) bool {
		if b == 0 || w.bases[b] || int(b) >= len(w.F) || !fits(i^b) {
			return false
		}
		if t.val >= 0 && w.taken[b] {
			return false
		}
		for _, l := range t.labels {
			if w.taken[b^uint32(l)] {
				return false
			}
		}
		return true
	}
	for try := 0; ; try++ {
		b := uint32(w.rng.Intn(len(w.F)))
		if w.far && w.rng.Intn(2) == 0 { // near the end
			b = uint32(len(w.F) - 1 - w.rng.Intn(4096))
		}
		if w.rng.Intn(3) == 0 || w.far {
			b = b&^0xff | i&0xff
		}
		if free(b) {
			return b
		}
		if try > 30 {
			n := len(w.F)
			w.grow(n + 256)
			b = uint32(n) | i&0xff
			if free(b) {
				return b
			}
		}
	}
}

// put writes node t at unit i.
func (w *writer) put(t *fnode, i uint32) {
	w.I[i] = uint32(t.n)
	shared := t.placed && fits(i^t.base)
	b := t.base
	if !shared {
		b = w.place(t, i)
		t.base, t.placed = b, true
		w.bases[b] = true
		if t.val >= 0 {
			w.taken[b] = true
			w.F[b] = uint32(t.val) | 1<<31
		}
		for _, l := range t.labels {
			w.taken[b^uint32(l)] = true
		}
	}
	rel := i ^ b
	u := w.F[i] & 0xff
	if t.val >= 0 {
		u |= 1 << 8
	}
	if rel >= 1<<21 || rel&0xff == 0 && w.rng.Intn(2) == 0 {
		u |= 1<<9 | rel>>8<<10
	} else {
		u |= rel << 10
	}
	w.F[i] = u
	// guide
	if len(t.labels) > 0 {
		w.G[i][0] = byte(t.labels[0])
	}
	// ranked guide
	type lk struct {
		l    int
		best int32
	}
	var ls []lk
	if t.val >= 0 {
		ls = append(ls, lk{0, t.val})
	}
	for q, l := range t.labels {
		ls = append(ls, lk{l, t.kids[q].best})
	}
	w.rng.Shuffle(len(ls), func(a, b int) { ls[a], ls[b] = ls[b], ls[a] })
	sort.SliceStable(ls, func(a, b int) bool { return ls[a].best > ls[b].best })
	if shared {
		w.R[i][0] = t.first
		return
	}
	if len(ls) > 0 {
		w.R[i][0] = byte(ls[0].l)
		for q := 1; q < len(ls); q++ {
			w.R[b^uint32(ls[q-1].l)][1] = byte(ls[q].l)
		}
		t.first = byte(ls[0].l)
	}
	for q, l := range t.labels {
		j := b ^ uint32(l)
		w.F[j] = uint32(l)
		if q+1 < len(t.labels) {
			w.G[j][1] = byte(t.labels[q+1])
		}
	}
	for q, l := range t.labels {
		w.put(t.kids[q], b^uint32(l))
	}
}

func le32(us []uint32) []byte {
	b := make([]byte, 4+4*len(us))
	binary.LittleEndian.PutUint32(b, uint32(len(us)))
	for i, u := range us {
		binary.LittleEndian.PutUint32(b[4+4*i:], u)
	}
	return b
}
func le22(ps [][2]byte) []byte {
	b := make([]byte, 4+2*len(ps))
	binary.LittleEndian.PutUint32(b, uint32(len(ps)))
	for i, p := range ps {
		b[4+2*i], b[5+2*i] = p[0], p[1]
	}
	return b
}

// foreign makes files for L, placed quite differently from how the code does it.
func foreign(rng *rand.Rand, L Lex, far bool) *files {
	w := &writer{rng: rng, bases: map[uint32]bool{}, far: far}
	w.grow(256 * (1 + rng.Intn(3)))
	if far {
		w.grow(1<<21 + 256*(1+rng.Intn(40)))
	}
	w.taken[0] = true
	var share map[string]*fnode
	if rng.Intn(4) != 0 {
		share = map[string]*fnode{}
	}
	if len(L) > 0 {
		w.put(treeOf(L, 0, share, map[*fnode]int{}), 0)
	}
	if len(L) == 0 {
		w.F[0] = 1 << 10
		w.bases[1] = true
	}
	// unused units must not be taken for children
	leafy := rng.Intn(2) == 0
	for blk := 0; blk < len(w.F); blk += 256 {
		spare := uint32(1) << 31
		for o := blk; o < blk+256; o++ {
			if !w.bases[uint32(o)] && o != 0 {
				spare = uint32(o)
				break
			}
		}
		for o := blk; o < blk+256; o++ {
			if w.taken[o] {
				continue
			}
			if leafy || spare == 1<<31 {
				w.F[o] = 1<<31 | rng.Uint32()>>1
			} else {
				w.F[o] = (uint32(o)^spare)&0xff | rng.Uint32()>>9<<9&0x7fffff00
			}
			w.G[o] = [2]byte{byte(rng.Intn(256)), byte(rng.Intn(256))}
			w.R[o] = w.G[o]
			w.I[o] = rng.Uint32()
		}
	}
	return parse(le32(w.F), le22(w.G), le22(w.R), le32(w.I), le32(w.I))
}

// loadFiles has the code read files.
func loadFiles(c *Ctx, L Lex, f *files) *Sut {
	s := &Sut{L: L}
	s.dict = dawg.ReadDictionary(bytes.NewReader(f.dict))
	s.guide = dawg.ReadGuide(bytes.NewReader(f.guide))
	s.rg = dawg.ReadRankedGuide(bytes.NewReader(f.ranked))
	s.idx = dawg.ReadIndex(bytes.NewReader(f.index))
	s.ridx = dawg.ReadIndex(bytes.NewReader(f.rindex))
	if s.dict == nil || s.guide == nil || s.rg == nil || s.idx == nil || s.ridx == nil {
		c.Obs(false, func() []Ev { return []Ev{{"op": "loadfailed"}} })
		return nil
	}
	s.ixr = dawg.NewIndexer(s.dict, s.guide, s.idx)
	s.rixr = dawg.NewIndexer(s.dict, s.rg, s.ridx)
	return s
}

// askAll asks everything of a loaded or built set of parts.
func askAll(c *Ctx, s *Sut, n int, ranked bool) {
	L := s.L
	if len(L) <= 4*n {
		for _, e := range L {
			checkFind(c, L, s.dict, e.K)
		}
	}
	for _, p := range probes(c.rng, L, n) {
		checkFind(c, L, s.dict, p)
		checkFollow(c, L, s.dict, p, 0)
	}
	walkAll(c, L, s.dict, n)
	if len(L) == 0 {
		return
	}
	cp := dawg.NewCompleter(s.dict, s.guide)
	bulkAscending(c, L, s.dict, cp, nil, nil)
	for _, p := range somePositions(c.rng, L, n/6+1) {
		bulkAscending(c, L, s.dict, cp, p, []byte("x"))
	}
	rc := dawg.NewRankedCompleter(s.dict, s.rg)
	bulkRanked(c, L, s.dict, rc, nil, nil, true)
	for _, p := range somePositions(c.rng, L, n/6+1) {
		bulkRanked(c, L, s.dict, rc, p, nil, true)
	}
	checkTotal(c, L, s.ixr, s.idx)
	for i := 0; i < n; i++ {
		checkKeyAt(c, L, s.ixr, uint32(c.rng.Intn(len(L)+2)))
	}
	for _, p := range probes(c.rng, L, n) {
		checkRank(c, L, s.ixr, p)
	}
	if ranked {
		for i := 0; i < n; i++ {
			checkNumAt(c, L, s.rixr, uint32(c.rng.Intn(len(L)+2)))
		}
		for _, p := range probes(c.rng, L, n) {
			checkNumOf(c, L, s.rixr, p)
		}
	}
}

func readLexicon(path string) Lex {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var es []Entry
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		i := strings.IndexByte(l, '\t')
		v, err := strconv.Atoi(l[i+1:])
		if err != nil {
			die("%v", err)
		}
		k, err := strconv.Unquote(`"` + l[:i] + `"`)
		if err != nil {
			die("%v", err)
		}
		es = append(es, Entry{[]byte(k), int32(v)})
	}
	return normal(es)
}

func checkC12(r *Run) {
	modelArrays(r)
	// written by the code, read by the layout
	for fi, vf := range loadVectors() {
		vf := vf
		suite := "fvec" + strconv.Itoa(fi)
		r.suiteRunEvery(suite, "TraceFormat", len(vf.Vecs), 8, len(vf.Vecs)/12+1, func(c *Ctx) {
			L, _ := vf.mapped(&vf.Vecs[c.idx], byteMaps[c.rng.Intn(len(byteMaps))], valMaps[c.rng.Intn(len(valMaps))])
			s := mk(c, L, wAll)
			judgeFiles(c, L, savedFiles(&family{L, s.dict, s.guide, s.rg, s.idx, s.ridx}), int(s.unused), 1<<30)
		})
	}
	fm := func(c *Ctx, L Lex, limit int) {
		s := mk(c, L, wAll)
		noteSize(c, s)
		judgeFiles(c, L, savedFiles(&family{L, s.dict, s.guide, s.rg, s.idx, s.ridx}), int(s.unused), limit)
	}
	n := r.pick(1500, 30000)
	r.suiteRunEvery("small", "TraceFormat", n, 8, n/20+1, func(c *Ctx) { fm(c, smallLex(c.rng), 1<<30) })
	m := r.pick(200, 3000)
	r.suiteRunEvery("medium", "TraceFormat", m, 8, m/30+1, func(c *Ctx) { fm(c, mediumLex(c.rng), 1<<30) })
	r.suiteRunEvery("round", "TraceFormat", r.pick(1, 4)*3*len(roundUnits), 8, 1000, func(c *Ctx) { fm(c, unitsLex(c.rng, aroundUnits(c.idx)), 3000) })
	r.suiteRunEvery("blocks", "TraceFormat", r.pick(300, 6000), 8, 1000000, func(c *Ctx) {
		c.sampled = false // too long for TLC when there is nothing to see
		fm(c, blockLex(c.rng), 1<<30)
	})
	r.suiteRunEvery("wide", "TraceFormat", r.pick(16, 200), 8, 1000000, func(c *Ctx) {
		c.sampled = false
		fm(c, wideLex(c.rng, 1+c.rng.Intn(6)), 1<<30)
	})
	r.suiteRunEvery("big", "TraceFormat", r.pick(1, 4), 1, 1, func(c *Ctx) {
		fm(c, bigLex(c.rng, 450000), r.pick(200000, 1<<30))
	})
	// written by another, read by the code
	foreignLex := func(c *Ctx) (Lex, bool) {
		L := smallLex(c.rng)
		far := c.rng.Intn(200) == 0 || c.idx == 3
		if c.rng.Intn(10) == 0 && !far {
			L = genLex(c.rng, c.rng.Intn(kKinds), 100)
			for len(L) > 700 || len(L) > 0 && len(L[0].K) > 3000 {
				L = smallLex(c.rng)
			}
		}
		return L, far
	}
	q := r.pick(1200, 20000)
	r.suiteRunEvery("foreign", "TraceSystem", q, 8, q/30+1, func(c *Ctx) {
		L, far := foreignLex(c)
		f := foreign(c.rng, L, far)
		c.r.seen(L.hash()+1, len(L) > 1)
		if s := loadFiles(c, L, f); s != nil {
			askAll(c, s, 40, true)
		}
	})
	// (that writer's files are files of the layout)
	r.suiteRunEvery("foreign", "TraceFormat", r.pick(60, 600), 8, 4, func(c *Ctx) {
		L, far := foreignLex(c)
		f := foreign(c.rng, L, far)
		judgeFiles(c, L, f, -1, 1<<30)
		if len(c.sus) > 0 {
			die("the independent writer is wrong in case %s", c.id)
		}
	})
	// saved earlier
	golden, _ := filepath.Glob(filepath.Join(extra["golden"], "*.lex"))
	sort.Strings(golden)
	if len(golden) == 0 {
		die("no golden files in %s", extra["golden"])
	}
	r.suiteRunEvery("golden", "TraceSystem", len(golden), 8, 1, func(c *Ctx) {
		base := strings.TrimSuffix(golden[c.idx], ".lex")
		L := readLexicon(golden[c.idx])
		rd := func(ext string) []byte {
			b, err := os.ReadFile(base + ext)
			if err != nil {
				die("%v", err)
			}
			return b
		}
		f := parse(rd(".dict"), rd(".guide"), rd(".ranked"), rd(".index"), rd(".index"))
		if s := loadFiles(c, L, f); s != nil {
			askAll(c, s, 200, false)
		}
	})
}

// modelArrays compares the arrays the model of the builder (DoubleArray, in the real geometry) arrives at
// with those the code saves.  A different arrangement is no fault; the count shows how close the model is.
func modelArrays(r *Run) {
	p := extra["arrays"]
	if p == "" || r.only != "" {
		return
	}
	var same, all int64
	for _, l := range readLines(p) {
		var v struct {
			Lex    []vKV
			Units  [][5]uint32
			Unused int
		}
		if err := json.Unmarshal(l, &v); err != nil {
			die("bad array: %v", err)
		}
		all++
		func() {
			defer func() { recover() }()
			b := dawg.NewDawgBuilder()
			for _, e := range v.Lex {
				k := make([]byte, len(e.K))
				for i, x := range e.K {
					k[i] = byte(x)
				}
				if !b.InsertKeyValue(k, len(k), e.V) {
					return
				}
			}
			d := dawg.NewDawg()
			b.Finish(d)
			var unused uint32
			dict := d.BuildWithUnused(&unused)
			var buf bytes.Buffer
			if !dict.Write(&buf) {
				return
			}
			F, ok := units32(buf.Bytes())
			if !ok || len(F) != len(v.Units) || int(unused) != v.Unused {
				return
			}
			for i, u := range v.Units {
				w := u[4] | 1<<31
				if u[0] == 0 {
					w = u[1] | u[2]<<8 | u[3]<<10
				}
				if w != F[i] {
					return
				}
			}
			same++
		}()
	}
	r.note("arrays_of_the_model", all)
	r.note("arrays_of_the_model_saved_identically", same)
}
