package main

// Calls into the real library.

import (
	"bytes"

	"github.com/deNULL/dawg"
)

type Sut struct {
	L      Lex
	auto   *dawg.Dawg
	dict   *dawg.Dictionary
	guide  *dawg.Guide
	rg     *dawg.RankedGuide
	idx    *dawg.Index // over guide
	ridx   *dawg.Index // over rg
	ixr    *dawg.Indexer
	rixr   *dawg.Indexer
	unused uint32
	salt   uint64 // of the way things are built when there is no key to tell it by

	looks     []string // what the parts looked like before they were shared
	autoLooks string
}

// freshAuto builds in the plainest way.
func freshAuto(L Lex) *dawg.Dawg {
	b := dawg.NewDawgBuilder()
	for _, e := range L {
		b.InsertKeyValue(e.K, len(e.K), e.V)
	}
	a := dawg.NewDawg()
	b.Finish(a)
	return a
}

// buildAuto inserts a listing in one of several ways (which one depends on the listing): keys of
// their own, one buffer for all of them, strings.
func buildAuto(L Lex) (*dawg.Dawg, int) {
	h := L.hash()
	b := dawg.NewDawgBuilder()
	if h>>13%4 == 3 {
		b = dawg.NewDawgBuilderWithSize([]int{1, 2, 3, 5, 17, 64, 300, 4096}[h>>15%8])
	}
	a := dawg.NewDawg()
	if h>>18%3 == 0 {
		// the builder, and perhaps the automaton, are not new
		old := a
		if h>>20%2 == 0 {
			old = dawg.NewDawg()
		}
		for _, e := range earlier(L) {
			b.InsertKeyValue(e.K, len(e.K), e.V)
		}
		b.Finish(old)
		if h>>22%2 == 0 { // what the first automaton had may come back with the third
			for _, e := range earlier(L) {
				b.InsertKeyValue(e.K, len(e.K), e.V/2)
			}
			b.Finish(old)
		}
		if h>>21%3 == 0 {
			old.Clear()
		}
	}
	refused := -1
	way := h >> 7 % 4
	var buf []byte
	for i, e := range L {
		var ok bool
		switch {
		case way == 1 || way == 3 && i%3 == 0:
			// the same buffer again and again, with more in it than the key
			buf = append(append(buf[:0], e.K...), 0xfe, 0, 'q')
			ok = b.InsertKeyValue(buf, len(e.K), e.V)
		case way == 2 || way == 3 && i%3 == 1:
			if e.V == 0 && i%2 == 0 {
				ok = b.InsertString(string(e.K))
			} else {
				ok = b.InsertStringValue(string(e.K), e.V)
			}
		default:
			ok = b.InsertKeyValue(e.K, len(e.K), e.V)
		}
		if !ok && refused < 0 {
			refused = i
		}
	}
	for i := range buf {
		buf[i] = 1
	}
	b.Finish(a)
	return a, refused
}

// earlier is what objects were used for before they are used for L: something of about the same size and
// shape, or a small lexicon with many shared endings.
func earlier(L Lex) Lex {
	var E Lex
	h := L.hash()
	if h>>23%2 == 0 && len(L) > 0 && len(L) < 4000 {
		for i, e := range L {
			if uint64(i)%5 != h>>25%5 {
				E = append(E, Entry{e.K, e.V ^ int32(i&3)})
			}
		}
		return E
	}
	for i := 0; i < 12+int(h>>27%40); i++ {
		k := []byte{byte(1 + 6*i)}
		E = append(E, Entry{k, int32(i)}, Entry{append(k, "in"...), 1}, Entry{append(k, "ing"...), 2}, Entry{append(k, "ings"...), 1})
	}
	return E
}

const (
	wDict = 1 << iota
	wGuide
	wRanked
	wIndex
	wRIndex
	wAll = 31
)

// mk builds the requested parts; refusals of insertions show up as missing keys.
func mk(c *Ctx, L Lex, what int) *Sut {
	s := &Sut{L: L}
	if len(L) == 0 {
		s.salt = uint64(c.idx) * 0x9e3779b97f4a7c15
	}
	c.r.seen(L.hash(), len(L) >= 2)
	a, refused := buildAuto(L)
	s.auto = a
	if refused >= 0 {
		e := L[refused]
		c.Obs(false, func() []Ev {
			w := Ev{"op": "listing", "b": 0, "L": L[max0(refused-1):refused].json()}
			return []Ev{w, {"op": "insert", "b": 0, "k": B(e.K), "v": e.V, "r": false}}
		})
	}
	s.complete(what)
	return s
}

func (s *Sut) complete(what int) {
	s.unused = uint32(s.L.hash() >> 40 % 300) // what was there before does not count
	if (s.L.hash()^s.salt)>>11%3 == 0 {
		s.completeByBuilders(what)
		return
	}
	s.dict = s.auto.BuildWithUnused(&s.unused)
	if what&(wGuide|wIndex) != 0 {
		s.guide = dawg.BuildGuide(s.auto, s.dict)
	}
	if what&(wRanked|wRIndex) != 0 {
		s.rg = dawg.BuildRankedGuide(s.auto, s.dict)
	}
	if what&wIndex != 0 {
		s.idx = dawg.BuildIndex(s.dict, s.guide)
		s.ixr = dawg.NewIndexer(s.dict, s.guide, s.idx)
	}
	if what&wRIndex != 0 {
		s.ridx = dawg.BuildIndex(s.dict, s.rg)
		s.rixr = dawg.NewIndexer(s.dict, s.rg, s.ridx)
	}
}

// completeByBuilders does the same with the builder objects, into objects that may have been used before.
func (s *Sut) completeByBuilders(what int) {
	s.auto.BuildWithUnused(&s.unused)
	d, g, x, rx := dawg.NewDictionary(), dawg.NewGuide(), dawg.NewIndex(), dawg.NewIndex()
	h := s.L.hash() ^ s.salt
	if h>>29%3 != 0 {
		b := dawg.NewDawgBuilder()
		for _, e := range earlier(s.L) {
			b.InsertKeyValue(e.K, len(e.K), e.V)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		dawg.NewDictionaryBuilder(a, d).BuildDictionary()
		dawg.NewGuideBuilder(a, d, g).Build()
		dawg.NewIndexBuilder(d, g, x).Build()
		dawg.NewIndexBuilder(d, dawg.BuildRankedGuide(a, d), rx).Build()
		if h>>31%4 == 0 {
			g.Clear()
		}
	}
	s.dict, s.guide = nil, nil
	if dawg.NewDictionaryBuilder(s.auto, d).BuildDictionary() {
		s.dict = d
	}
	if what&(wGuide|wIndex) != 0 {
		if dawg.NewGuideBuilder(s.auto, s.dict, g).Build() {
			s.guide = g
		}
	}
	if what&(wRanked|wRIndex) != 0 {
		s.rg = dawg.BuildRankedGuide(s.auto, s.dict)
	}
	if what&wIndex != 0 {
		if dawg.NewIndexBuilder(s.dict, s.guide, x).Build() {
			s.idx = x
		}
		s.ixr = dawg.NewIndexer(s.dict, s.guide, s.idx)
	}
	if what&wRIndex != 0 {
		if dawg.NewIndexBuilder(s.dict, s.rg, rx).Build() {
			s.ridx = rx
		}
		s.rixr = dawg.NewIndexer(s.dict, s.rg, s.ridx)
	}
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

// ---- exact match -------------------------------------------------------

type findRes struct {
	has [4]bool
	val [2]int32
	out [2]int32
}

func findAll(d *dawg.Dictionary, k []byte, pad []byte) findRes {
	var r findRes
	s := string(k)
	long := s + string(pad)
	r.has[0] = d.ContainsString(s)
	r.has[1] = d.ContainsStringLen(long, len(k))
	r.val[0] = d.FindString(s)
	r.val[1] = d.FindStringLen(long, len(k))
	r.out[0], r.out[1] = -7, -7
	r.has[2] = d.FindStringValue(s, &r.out[0])
	r.has[3] = d.FindStringLenValue(long, len(k), &r.out[1])
	return r
}
func (r findRes) ok(want int32) bool {
	h := want >= 0
	if r.has != [4]bool{h, h, h, h} || r.val != [2]int32{want, want} {
		return false
	}
	return !h || r.out == [2]int32{want, want}
}
func (r findRes) ev(d int, k []byte) Ev {
	return Ev{"op": "find", "d": d, "k": B(k), "has": r.has[:], "val": r.val[:], "out": r.out[:]}
}

func checkFind(c *Ctx, L Lex, d *dawg.Dictionary, k []byte) {
	// what stands behind the length given: the rest of a key, or something else
	pad := []byte{'a', 0, 'z'}
	if len(k) > 0 {
		pad[0] = k[0]
	}
	if lo, hi := L.under(k); lo < hi && len(k)%3 != 2 {
		pad = L[hi-1].K[len(k):]
	}
	r := findAll(d, k, pad)
	c.Obs(r.ok(L.find(k)), func() []Ev { return []Ev{L.windowEv(1, k), r.ev(1, k)} })
}

// ---- navigation --------------------------------------------------------

func follow(d *dawg.Dictionary, p []byte) (uint32, bool) {
	ix := d.Root()
	for _, b := range p {
		if !d.Follow(b, &ix) {
			return ix, false
		}
	}
	return ix, true
}

// checkNode tries all 256 bytes at the position of p.
func checkNode(c *Ctx, L Lex, d *dawg.Dictionary, p []byte, ix uint32, lo, hi int) (kids []uint32, labels []byte) {
	want := [256]bool{}
	for i := lo; i < hi; {
		if len(L[i].K) == len(p) {
			i++
			continue
		}
		b := L[i].K[len(p)]
		want[b] = true
		labels = append(labels, b)
		// skip this child
		j := i + 1
		for j < hi && L[j].K[len(p)] == b {
			j++
		}
		i = j
	}
	kids = make([]uint32, len(labels))
	ki := 0
	for b := 0; b < 256; b++ {
		x := ix
		ok := d.Follow(byte(b), &x)
		moved := !ok && x != ix
		if want[b] {
			kids[ki] = x
			ki++
		}
		bb := byte(b)
		c.Obs(ok == want[b] && !moved, func() []Ev {
			q := append(append([]byte{}, p...), bb)
			return []Ev{L.windowEv(1, q), {"op": "step", "d": 1, "p": B(p), "l": int(bb), "r": ok, "moved": moved}}
		})
	}
	has := d.HasValue(ix)
	var val int32 = -1
	if has {
		val = d.Value(ix)
	}
	c.Obs(val == L.find(p) && has == (val >= 0), func() []Ev {
		return []Ev{L.windowEv(1, p), {"op": "at", "d": 1, "p": B(p), "has": has, "val": val}}
	})
	return
}

// walkAll visits every position (at most limit) and tries every byte there.
func walkAll(c *Ctx, L Lex, d *dawg.Dictionary, limit int) int {
	type fr struct {
		p      []byte
		ix     uint32
		lo, hi int
	}
	st := []fr{{nil, d.Root(), 0, len(L)}}
	n := 0
	for len(st) > 0 && n < limit {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		n++
		kids, labels := checkNode(c, L, d, f.p, f.ix, f.lo, f.hi)
		if len(c.sus) > 0 {
			return n
		}
		i := f.lo
		if i < f.hi && len(L[i].K) == len(f.p) {
			i++
		}
		for q, b := range labels {
			j := i
			for j < f.hi && L[j].K[len(f.p)] == b {
				j++
			}
			st = append(st, fr{append(append(make([]byte, 0, len(f.p)+1), f.p...), b), kids[q], i, j})
			i = j
		}
	}
	return n
}

func checkFollow(c *Ctx, L Lex, d *dawg.Dictionary, s []byte, start int) {
	m := L.matched(s)
	want, _ := follow(d, s[:m])
	str := string(s)
	long := str + "\x00x" + str
	if lo, hi := L.under(s); lo < hi && start%3 != 2 {
		long = string(L[hi-1].K) + "a"
	}
	var ix [4]uint32
	var ok [4]bool
	n := [2]int{start, start}
	for i := range ix {
		ix[i] = d.Root()
	}
	ok[0] = d.FollowString(str, &ix[0])
	ok[1] = d.FollowStringLen(long, len(s), &ix[1])
	ok[2] = d.FollowStringCount(str, &ix[2], &n[0])
	ok[3] = d.FollowStringLenCount(long, len(s), &ix[3], &n[1])
	same := ix == [4]uint32{want, want, want, want}
	all := m == len(s)
	good := same && ok == [4]bool{all, all, all, all} && n == [2]int{start + m, start + m}
	c.Obs(good, func() []Ev {
		return []Ev{L.windowEv(1, s), {"op": "follow", "d": 1, "s": B(s), "ok": ok[:], "start": start, "n": n[:], "there": same}}
	})
}

// ---- completion --------------------------------------------------------

type listed struct {
	k []byte
	v int32
	n int
}

// listing runs a completer to its end (at most limit keys).
func listing(cp completer, limit int) (out []listed, ended bool) {
	for i := 0; i <= limit; i++ {
		if !cp.Next() {
			return out, true
		}
		out = append(out, listed{[]byte(cp.Key()), cp.Value(), cp.Length()})
	}
	return out, false
}

type completer interface {
	Start(uint32)
	StartString(uint32, string)
	StartStringLen(uint32, string, int)
	Next() bool
	Key() string
	Value() int32
	Length() int
}

// bulkAscending compares a complete listing below p with the lexicon.
func bulkAscending(c *Ctx, L Lex, d *dawg.Dictionary, cp completer, p, text []byte) {
	ix, okp := follow(d, p)
	lo, hi := L.under(p)
	if !okp {
		c.Obs(false, func() []Ev {
			return []Ev{L.windowEv(1, p), {"op": "follow", "d": 1, "s": B(p), "ok": []bool{false, false, false, false}, "start": 0, "n": []int{0, 0}, "there": false}}
		})
		return
	}
	cp.StartString(ix, string(text))
	prev := -1 // index of the last entry returned
	i := lo
	for {
		more := cp.Next()
		var k []byte
		var v int32
		var n int
		if more {
			k, v, n = []byte(cp.Key()), cp.Value(), cp.Length()
		}
		good := false
		if i < hi {
			e := L[i]
			good = more && n == len(k) && v == e.V && len(k) == len(text)+len(e.K)-len(p) &&
				bytes.HasPrefix(k, text) && bytes.Equal(k[len(text):], e.K[len(p):])
		} else {
			good = !more
		}
		ii, pp := i, prev
		c.Obs(good, func() []Ev {
			after := Ev{"some": pp >= 0, "k": []int{}}
			if pp >= 0 {
				after["k"] = B(L[pp].K)
			}
			return []Ev{L.windowAt(1, ii-2, ii+2), {"op": "succ", "d": 1, "p": B(p), "text": B(text), "after": after, "r": more, "k": B(k), "v": v, "n": n}}
		})
		if !good || !more {
			break
		}
		prev = i
		i++
	}
	if i >= hi && len(c.sus) == 0 {
		for j := 0; j < 5; j++ {
			more := cp.Next()
			pp := hi - 1
			c.Obs(!more, func() []Ev {
				after := Ev{"some": pp >= lo, "k": []int{}}
				if pp >= lo {
					after["k"] = B(L[pp].K)
				}
				return []Ev{L.windowAt(1, hi-2, hi+2), {"op": "succ", "d": 1, "p": B(p), "text": B(text), "after": after, "r": more, "k": []int{}, "v": 0, "n": 0}}
			})
		}
	}
}

// bulkRanked compares a complete ranked listing below p with the lexicon.
func bulkRanked(c *Ctx, L Lex, d *dawg.Dictionary, cp completer, p, text []byte, ordered bool) {
	ix, okp := follow(d, p)
	lo, hi := L.under(p)
	if !okp {
		c.Obs(false, func() []Ev {
			return []Ev{L.windowEv(1, p), {"op": "follow", "d": 1, "s": B(p), "ok": []bool{false, false, false, false}, "start": 0, "n": []int{0, 0}, "there": false}}
		})
		return
	}
	cp.StartString(ix, string(text))
	count := make([]int, hi-lo)
	var last int32
	for i := 0; i <= hi-lo+2; i++ {
		if !cp.Next() {
			break
		}
		k, v, n := []byte(cp.Key()), cp.Value(), cp.Length()
		full := append(append([]byte{}, p...), k[min(len(text), len(k)):]...)
		at := L.rank(full)
		good := bytes.HasPrefix(k, text) && n == len(k) && at >= lo && at < hi && L[at].V == v
		c.Obs(good, func() []Ev {
			return []Ev{L.windowEv(1, full), {"op": "ranked", "d": 1, "p": B(p), "text": B(text), "k": B(k), "v": v, "n": n}}
		})
		if good {
			count[at-lo]++
		} else {
			return
		}
		if ordered && i > 0 {
			l := last
			c.Obs(v <= l, func() []Ev { return []Ev{{"op": "descend", "before": l, "now": v}} })
		}
		last = v
	}
	for i, n := range count {
		e := L[lo+i]
		m := n
		c.Obs(n == 1, func() []Ev {
			return []Ev{L.windowEv(1, e.K), {"op": "listed", "d": 1, "p": B(p), "k": B(e.K), "times": m}}
		})
	}
	for j := 0; j < 5; j++ {
		more := cp.Next()
		c.Obs(!more, func() []Ev { return []Ev{{"op": "exhausted", "r": more}} })
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---- numbering ---------------------------------------------------------

func num(x uint32) int {
	switch {
	case x == dawg.NotFound:
		return -1
	case x == dawg.Failed:
		return -2
	case x > 0x7fffffff:
		return -3
	}
	return int(x)
}

func checkRank(c *Ctx, L Lex, ix *dawg.Indexer, k []byte) {
	r := []int{num(ix.StringToIndex(string(k))), num(ix.BytesToIndex(k))}
	w := L.rank(k)
	c.Obs(r[0] == w && r[1] == w, func() []Ev {
		return []Ev{L.windowEv(1, k), {"op": "rank", "d": 1, "k": B(k), "r": r}}
	})
}

func keyAt(ix *dawg.Indexer, i uint32) Ev {
	b := ix.IndexToBytes(i)
	s := ix.IndexToString(i)
	return Ev{"some": b != nil, "k": B(b), "s": S(s)}
}

func clampInt(i uint32) int {
	if i > 0x7fffffff {
		return 0x7fffffff
	}
	return int(i)
}

func checkKeyAt(c *Ctx, L Lex, ix *dawg.Indexer, i uint32) {
	b := ix.IndexToBytes(i)
	s := ix.IndexToString(i)
	var good bool
	if int64(i) < int64(len(L)) {
		good = b != nil && bytes.Equal(b, L[i].K) && s == string(L[i].K)
	} else {
		good = b == nil && s == ""
	}
	c.Obs(good, func() []Ev {
		j := int(i)
		if j > len(L) {
			j = len(L)
		}
		return []Ev{L.windowAt(1, j-2, j+2), {"op": "keyat", "d": 1, "i": clampInt(i), "some": b != nil, "k": B(b), "s": S(s)}}
	})
}

func checkTotal(c *Ctx, L Lex, ix *dawg.Indexer, index *dawg.Index) {
	t := []int{num(ix.TotalCount()), num(index.TotalCount())}
	c.Obs(t[0] == len(L) && t[1] == len(L), func() []Ev {
		return []Ev{L.windowAt(1, 0, 2), {"op": "total", "d": 1, "r": t}}
	})
}

// numbering by a ranked guide: any bijection.
func checkNumOf(c *Ctx, L Lex, ix *dawg.Indexer, k []byte) int {
	r := num(ix.StringToIndex(string(k)))
	r2 := num(ix.BytesToIndex(k))
	var back []byte
	if r >= 0 {
		back = ix.IndexToBytes(uint32(r))
	}
	want := L.rank(k) >= 0
	good := r == r2 && (want && r >= 0 && r < len(L) && back != nil && bytes.Equal(back, k) || !want && r == -1)
	c.Obs(good, func() []Ev {
		return []Ev{L.windowEv(1, k), {"op": "numof", "d": 1, "k": B(k), "r": []int{r, r2}, "some": back != nil, "back": B(back)}}
	})
	return r
}

func checkNumAt(c *Ctx, L Lex, ix *dawg.Indexer, i uint32) {
	b := ix.IndexToBytes(i)
	s := ix.IndexToString(i)
	back := -1
	if b != nil {
		back = num(ix.BytesToIndex(b))
	}
	var good bool
	if int64(i) < int64(len(L)) {
		good = b != nil && L.rank(b) >= 0 && s == string(b) && back == int(i)
	} else {
		good = b == nil && s == ""
	}
	c.Obs(good, func() []Ev {
		return []Ev{L.windowEv(1, b), {"op": "numat", "d": 1, "i": clampInt(i), "some": b != nil, "k": B(b), "s": S(s), "back": back}}
	})
}

// ---- guides and counts -------------------------------------------------

// nextLabel of L at p after l (0: the first; 0 back: none).
func (L Lex) nextLabel(p []byte, l byte) byte {
	if l == 255 {
		return 0
	}
	i := L.lower(append(append(make([]byte, 0, len(p)+1), p...), l+1))
	if i < len(L) && len(L[i].K) > len(p) && bytes.HasPrefix(L[i].K, p) {
		return L[i].K[len(p)]
	}
	return 0
}

func (L Lex) best(p []byte) int32 {
	lo, hi := L.under(p)
	var m int32 = -1
	for _, e := range L[lo:hi] {
		if e.V > m {
			m = e.V
		}
	}
	return m
}

// checkGuide: what an ordinary guide names at the position of p.
func checkGuide(c *Ctx, L Lex, d *dawg.Dictionary, g *dawg.Guide, p []byte) {
	if len(L) == 0 || len(L) > wholeLimit {
		return
	}
	ix, ok := follow(d, p)
	if !ok {
		checkFollow(c, L, d, p, 0)
		return
	}
	ch, sib := g.Child(ix), byte(0)
	good := ch == L.nextLabel(p, 0)
	if len(p) > 0 {
		sib = g.Sibling(ix)
		good = good && sib == L.nextLabel(p[:len(p)-1], p[len(p)-1])
	}
	c.Obs(good, func() []Ev {
		return []Ev{L.windowAt(1, 0, len(L)), {"op": "guide", "d": 1, "p": B(p), "child": int(ch), "sibling": int(sib)}}
	})
}

// checkBest: the first child of a ranked guide of the default order.
func checkBest(c *Ctx, L Lex, d *dawg.Dictionary, g *dawg.RankedGuide, p []byte) {
	if len(L) == 0 || len(L) > wholeLimit {
		return
	}
	ix, ok := follow(d, p)
	if !ok {
		checkFollow(c, L, d, p, 0)
		return
	}
	ch := g.Child(ix)
	best := L.best(p)
	good := ch == 0 && L.find(p) == best || ch != 0 && L.best(append(append([]byte{}, p...), ch)) == best
	c.Obs(good, func() []Ev {
		return []Ev{L.windowAt(1, 0, len(L)), {"op": "best", "d": 1, "p": B(p), "child": int(ch)}}
	})
}

// checkCount: the number of keys an index has for the position of p.
func checkCount(c *Ctx, L Lex, d *dawg.Dictionary, x *dawg.Index, p []byte) {
	ix, ok := follow(d, p)
	if !ok {
		checkFollow(c, L, d, p, 0)
		return
	}
	lo, hi := L.under(p)
	n := int(x.ChildCount(ix))
	c.Obs(n == hi-lo, func() []Ev {
		if len(L) <= wholeLimit || hi == lo {
			return []Ev{L.windowAt(1, 0, len(L)), {"op": "count", "d": 1, "p": B(p), "r": []int{n}}}
		}
		return []Ev{L.windowAt(1, lo-2, lo+2), {"op": "span", "d": 1, "p": B(p), "first": B(L[lo].K), "lo": lo},
			L.windowAt(1, hi-3, hi+1), {"op": "spanend", "d": 1, "p": B(p), "last": B(L[hi-1].K), "lo": lo, "r": []int{n}}}
	})
}
