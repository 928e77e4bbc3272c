package main

// C19: the guarantees of the other properties around and beyond the internal sizes.

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/deNULL/dawg"
)

func init() { checks["C19"] = checkC19 }

// reachLex: shared endings met first near the start of the array and again far away, and the other way around.
func reachLex(rng *rand.Rand, n int) Lex {
	var es []Entry
	add := func(v int32, ks ...[]byte) {
		var k []byte
		for _, x := range ks {
			k = append(k, x...)
		}
		es = append(es, Entry{k, v})
	}
	// little families of endings, some with an entry in the middle
	var fam [][][]byte
	for i := 0; i < 3060; i++ {
		var f [][]byte
		if i%3 == 0 {
			f = append(f, []byte{}) // the head is a key itself
		}
		for j := 0; j < 1+rng.Intn(6); j++ {
			f = append(f, randKey(rng, []byte{1, 'a', 'b', 'c', 128, 200, 255}, 4))
		}
		fam = append(fam, f)
	}
	put := func(head []byte) {
		// few families that are met all the time, many that are met a few times: a link across the array is taken
		// only if it happens to fit, one time in 256, and the next links go to the nearer place
		i := rng.Intn(len(fam))
		if rng.Intn(3) == 0 {
			i = rng.Intn(60)
		}
		for _, t := range fam[i] {
			add(int32(len(t)), head, t)
		}
	}
	for i := 0; i < 2000; i++ {
		put([]byte{1, byte(1 + rng.Intn(255)), byte(1 + rng.Intn(40))})
		put([]byte{255, byte(1 + rng.Intn(255)), byte(1 + rng.Intn(255))})
		put([]byte{byte(2 + rng.Intn(250)), byte(1 + rng.Intn(255)), byte(1 + rng.Intn(255))})
	}
	for i := 0; i < n; i++ {
		k := make([]byte, 5+rng.Intn(4))
		k[0] = byte(2 + rng.Intn(252))
		for j := 1; j < len(k); j++ {
			k[j] = byte(1 + rng.Intn(255))
		}
		if rng.Intn(8) == 0 {
			put(k[:4])
		} else {
			add(int32(rng.Intn(1<<30)), k)
		}
	}
	return normal(es)
}

// farLex: more than 2^24 units, most of them in long unshared tails, with shared endings at both ends of the array.
func farLex(rng *rand.Rand, n int) Lex {
	es := []Entry(reachLex(rng, 20000))
	for i := 0; i < n; i++ {
		k := make([]byte, 34+rng.Intn(12))
		for j := range k {
			k[j] = byte(1 + rng.Intn(255))
		}
		es = append(es, Entry{k, int32(rng.Intn(1 << 30))})
	}
	return normal(es)
}

// denseLex: all numbers of a few digits.
func denseLex(rng *rand.Rand, digits int, distinct bool) Lex {
	n := 1
	for i := 0; i < digits; i++ {
		n *= 10
	}
	L := make(Lex, n)
	for i := range L {
		v := int32(i)
		if !distinct {
			v = int32(rng.Intn(3))
		}
		L[i] = Entry{[]byte(fmt.Sprintf("%0*d", digits, i)), v}
	}
	return L
}

// wideLex: full nodes below full nodes.
func wideLex(rng *rand.Rand, heads int) Lex {
	var es []Entry
	for i := 0; i < heads; i++ {
		h := byte(1 + rng.Intn(255))
		share := rng.Intn(2) == 0
		if rng.Intn(2) == 0 { // with a key that ends there: 256 transitions
			es = append(es, Entry{[]byte{h}, 7})
		}
		for b := 1; b < 256; b++ {
			v := int32(b)
			if !share {
				v = int32(rng.Intn(1 << 20))
			}
			es = append(es, Entry{[]byte{h, byte(b)}, v})
			if rng.Intn(40) == 0 || share && b > 253 {
				for x := 1; x < 256; x++ {
					es = append(es, Entry{[]byte{h, byte(b), byte(x)}, int32(x & 1)})
				}
			}
		}
	}
	return normal(es)
}

// productLex: every head with every tail.
func productLex(rng *rand.Rand, heads, tails int) Lex {
	alpha := pickAlphabet(rng, 12)
	var es []Entry
	var ts [][]byte
	for i := 0; i < tails; i++ {
		ts = append(ts, randKey(rng, alpha, 6))
	}
	for i := 0; i < heads; i++ {
		h := randKey(rng, alpha, 5)
		for j, t := range ts {
			es = append(es, Entry{append(append([]byte{}, h...), t...), int32(j % 3)})
		}
		if rng.Intn(20) == 0 {
			es = append(es, Entry{append(append([]byte{}, h...), 'x', 'y'), int32(i)})
		}
	}
	return normal(es)
}

func longLex(rng *rand.Rand, l int) Lex {
	var es []Entry
	base := make([]byte, l)
	for i := range base {
		base[i] = byte(1 + rng.Intn(255))
	}
	es = append(es, Entry{base, 3})
	for i := 0; i < 6; i++ {
		k := append([]byte{}, base[:rng.Intn(l)]...)
		es = append(es, Entry{k, int32(i)})
		k2 := append(append([]byte{}, k...), byte(1+rng.Intn(255)))
		es = append(es, Entry{append(k2, base[len(base)-rng.Intn(l):]...), 3})
	}
	return normal(es)
}

// atGrowth: about as many states as make a table grow.
func atGrowth(rng *rand.Rand) Lex {
	size := 256 << uint(rng.Intn(5))
	n := size - size/4 + rng.Intn(7) - 3
	// chains of distinct values: every key has a state of its own, and then some
	var es []Entry
	for i := 0; i < n; i++ {
		es = append(es, Entry{[]byte(fmt.Sprintf("%c%05d", 'a'+rune(rng.Intn(3)), i)), int32(i)})
	}
	L := normal(es)
	// cut to the number of states wanted
	for len(L) > 2 && sizesOf(L).States > n+rng.Intn(3) {
		L = L[:len(L)-1-rng.Intn(1+len(L)/20)]
	}
	return L
}

func blocksLex(rng *rand.Rand) Lex {
	switch rng.Intn(6) {
	case 0:
		return genLex(rng, kBlocks, 300+rng.Intn(3000))
	case 1:
		return genLex(rng, kBytes, 500+rng.Intn(4000))
	case 2:
		return wideLex(rng, 2+rng.Intn(12))
	case 3:
		return productLex(rng, 50+rng.Intn(400), 3+rng.Intn(20))
	case 4:
		return genLex(rng, kNum, 1000+rng.Intn(4000))
	default:
		return genLex(rng, rng.Intn(kKinds), 2000+rng.Intn(3000))
	}
}

func scaleOne(c *Ctx, L Lex, n int) {
	s := mk(c, L, wAll)
	noteSize(c, s)
	if s.dict == nil {
		c.Obs(false, func() []Ev { return []Ev{{"op": "notbuilt", "keys": len(L)}} })
		return
	}
	for _, e := range L {
		checkFind(c, L, s.dict, e.K)
	}
	askAll(c, s, n, true)
	if len(L) < 30000 {
		walkAll(c, L, s.dict, 30000)
	}
	if len(c.sus) > 0 {
		return
	}
	for i := 0; i < len(L); i += 1 + len(L)/20000 {
		checkRank(c, L, s.ixr, L[i].K)
		checkKeyAt(c, L, s.ixr, uint32(i))
		checkNumAt(c, L, s.rixr, uint32(i))
	}
}

func checkC19(r *Run) {
	vectorSuite(r, func(c *Ctx, L Lex, ps [][]byte) { scaleOne(c, L, 8) })
	r.suiteRunEvery("growth", "TraceSystem", r.pick(60, 800), 8, 4, func(c *Ctx) { scaleOne(c, atGrowth(c.rng), 40) })
	r.suiteRunEvery("blocks", "TraceSystem", r.pick(100, 1500), 8, 6, func(c *Ctx) { scaleOne(c, blocksLex(c.rng), 300) })
	r.suiteRunEvery("round", "TraceSystem", r.pick(1, 4)*3*len(roundUnits), 8, 1000, func(c *Ctx) { scaleOne(c, unitsLex(c.rng, aroundUnits(c.idx)), 300) })
	r.suiteRunEvery("long", "TraceSystem", r.pick(4, 40), 4, 100, func(c *Ctx) {
		c.sampled = false // too long for TLC when there is nothing to see
		scaleOne(c, longLex(c.rng, []int{3000, 30000, 70000, 150000}[c.idx%4]), 12)
	})
	kinds := 3
	r.suiteRunEvery("reach", "TraceSystem", r.pick(2, 9), 3, 1, func(c *Ctx) {
		var L Lex
		switch c.idx % kinds {
		case 0:
			L = reachLex(c.rng, 420000)
		case 1:
			L = bigLex(c.rng, 450000)
		case 2:
			L = denseLex(c.rng, 6, true)
		}
		scaleOne(c, L, 20000)
	})
	r.suiteRunEvery("far", "TraceSystem", r.pick(1, 3), 1, 1, func(c *Ctx) {
		switch c.idx {
		case 0:
			scaleOne(c, farLex(c.rng, 470000), 5000) // beyond 2^24 units
		case 1:
			scaleOne(c, reachLex(c.rng, 2500000), 20000)
		default:
			scaleOne(c, productLex(c.rng, 60000, 40), 20000)
		}
	})
	r.suiteRunEvery("edge", "TraceSystem", r.pick(3, 12), 3, 1000, func(c *Ctx) { scaleOne(c, edgeLex(c.rng), 5000) })
	// beyond 2^24 keys (thorough: 2^26)
	r.suiteRunEvery("vast", "TraceSystem", r.pick(1, 3), 1, 1, func(c *Ctx) {
		switch c.idx {
		case 0:
			vast(c, 17, 6, 4000)
		case 1:
			vast(c, 3, 15, 20000)
		default:
			vast(c, 240, 3, 20000)
			vast(c, 21, 6, 20000)
		}
	})
	small := mkFamily(genLex(rand.New(rand.NewSource(1)), kWords, 40))
	r.suiteRunEvery("saved", "TraceStore", r.pick(24, 300), 6, 4, func(c *Ctx) {
		L := blocksLex(c.rng)
		switch {
		case c.idx == 0:
			L = reachLex(c.rng, 420000)
		case c.idx == 1:
			L = farLex(c.rng, 470000)
		case c.idx < 5:
			L = longLex(c.rng, 20000)
		}
		manyWays(c, mkFamily(L), small, 1)
	})
}

// vastLex stands for all words of m letters over an alphabet, without listing them: the automaton is tiny, the
// numbers are not.  The value of a word is that of its first letter.
type vastLex struct {
	alpha []byte
	m     int
	total int
}

func (V vastLex) entry(i int) Entry {
	k := make([]byte, V.m)
	for j := V.m - 1; j >= 0; j-- {
		k[j] = V.alpha[i%len(V.alpha)]
		i /= len(V.alpha)
	}
	return Entry{k, V.value(k)}
}
func (V vastLex) value(k []byte) int32 { return int32(k[0]) * 1000003 }

// near is a window around word i, as a lexicon of its own, and the number of words below it.
func (V vastLex) near(i, w int) (Lex, int) {
	lo, hi := max0(i-w), min(i+w+1, V.total)
	var L Lex
	for j := lo; j < hi; j++ {
		L = append(L, V.entry(j))
	}
	return L, lo
}
func (V vastLex) ev(i int) Ev {
	L, lo := V.near(i, 2)
	return Ev{"op": "lexicon", "d": 1, "below": lo, "total": V.total, "win": L.json()}
}

func vast(c *Ctx, letters, m, samples int) {
	V := vastLex{alpha: pickAlphabet(c.rng, letters), m: m, total: 1}
	sort.Slice(V.alpha, func(i, j int) bool { return V.alpha[i] < V.alpha[j] })
	for i := 0; i < m; i++ {
		V.total *= len(V.alpha)
	}
	c.r.note("largest_lexicon", int64(V.total))
	c.r.seen(uint64(V.total)<<8|uint64(V.alpha[0]), true)
	b := dawg.NewDawgBuilder()
	k := make([]byte, m)
	dig := make([]int, m)
	for i := 0; i < V.total; i++ {
		for j := range k {
			k[j] = V.alpha[dig[j]]
		}
		if ok := b.InsertKeyValue(k, m, V.value(k)); !ok {
			c.Obs(false, func() []Ev {
				return []Ev{{"op": "listing", "b": 0, "L": Lex{V.entry(max0(i - 1))}.json()}, {"op": "insert", "b": 0, "k": B(k), "v": V.value(k), "r": ok}}
			})
			return
		}
		for j := m - 1; j >= 0; j-- {
			if dig[j]++; dig[j] < len(V.alpha) {
				break
			}
			dig[j] = 0
		}
	}
	a := dawg.NewDawg()
	b.Finish(a)
	d := a.Build()
	g, rg := dawg.BuildGuide(a, d), dawg.BuildRankedGuide(a, d)
	x, rx := dawg.BuildIndex(d, g), dawg.BuildIndex(d, rg)
	ix, rix := dawg.NewIndexer(d, g, x), dawg.NewIndexer(d, rg, rx)
	for _, t := range [][]int{{num(ix.TotalCount()), num(x.TotalCount())}, {num(rix.TotalCount()), num(rx.TotalCount())}} {
		c.Obs(t[0] == V.total && t[1] == V.total, func() []Ev { return []Ev{V.ev(0), {"op": "total", "d": 1, "r": t}} })
	}
	for q := 0; q < samples; q++ {
		i := c.rng.Intn(V.total)
		switch q % 5 {
		case 0: // around powers of two
			i = 1<<uint(c.rng.Intn(25)) - 2 + c.rng.Intn(4)
			if i < 0 || i >= V.total {
				i = V.total - 1
			}
		case 1:
			i = V.total - 1 - c.rng.Intn(V.total/100)
		}
		e := V.entry(i)
		f := findAll(d, e.K, []byte{'a'})
		c.Obs(f.ok(e.V), func() []Ev { return []Ev{V.ev(i), f.ev(1, e.K)} })
		r := []int{num(ix.StringToIndex(string(e.K))), num(ix.BytesToIndex(e.K))}
		c.Obs(r[0] == i && r[1] == i, func() []Ev { return []Ev{V.ev(i), {"op": "rank", "d": 1, "k": B(e.K), "r": r}} })
		kb, ks := ix.IndexToBytes(uint32(i)), ix.IndexToString(uint32(i))
		c.Obs(kb != nil && bytes.Equal(kb, e.K) && ks == string(e.K), func() []Ev {
			return []Ev{V.ev(i), {"op": "keyat", "d": 1, "i": i, "some": kb != nil, "k": B(kb), "s": S(ks)}}
		})
		n := num(rix.BytesToIndex(e.K))
		var back []byte
		if n >= 0 {
			back = rix.IndexToBytes(uint32(n))
		}
		c.Obs(n >= 0 && n < V.total && bytes.Equal(back, e.K), func() []Ev {
			return []Ev{V.ev(i), {"op": "numof", "d": 1, "k": B(e.K), "r": []int{n, n}, "some": back != nil, "back": B(back)}}
		})
		if q%50 == 0 { // how many below a beginning of it
			p := e.K[:c.rng.Intn(m)]
			span := V.total
			lo := 0
			for j := range p {
				span /= len(V.alpha)
				lo += span * bytes.IndexByte(V.alpha, p[j])
			}
			nd, ok := follow(d, p)
			cnt := []int{int(x.ChildCount(nd)), int(rx.ChildCount(nd))}
			c.Obs(ok && cnt[0] == span && cnt[1] == span, func() []Ev {
				return []Ev{V.ev(lo), {"op": "span", "d": 1, "p": B(p), "first": B(V.entry(lo).K), "lo": lo},
					V.ev(lo + span - 1), {"op": "spanend", "d": 1, "p": B(p), "last": B(V.entry(lo + span - 1).K), "lo": lo, "r": cnt}}
			})
		}
		if len(c.sus) > 0 {
			return
		}
	}
	for _, i := range []int{V.total, V.total + 1, V.total * 2, 1 << 30} {
		kb, ks := ix.IndexToBytes(uint32(i)), ix.IndexToString(uint32(i))
		c.Obs(kb == nil && ks == "", func() []Ev {
			return []Ev{V.ev(V.total - 1), {"op": "keyat", "d": 1, "i": i, "some": kb != nil, "k": B(kb), "s": S(ks)}}
		})
	}
	// some of the listings: the middle of the ascending one, the beginning of the ranked one
	cp := dawg.NewCompleter(d, g)
	i0 := c.rng.Intn(V.total)
	p := V.entry(i0).K[:1]
	nd, _ := follow(d, p)
	cp.StartString(nd, string(p))
	span := V.total / len(V.alpha)
	lo := span * bytes.IndexByte(V.alpha, p[0])
	for i := lo; i < lo+min(span, 100*samples)+1; i++ {
		more := cp.Next()
		var k []byte
		var v int32
		n := 0
		if more {
			k, v, n = []byte(cp.Key()), cp.Value(), cp.Length()
		}
		var good bool
		if i < lo+span {
			e := V.entry(i)
			good = more && v == e.V && n == m && bytes.Equal(k, e.K)
		} else {
			good = !more
		}
		c.Obs(good, func() []Ev {
			after := Ev{"some": i > lo, "k": []int{}}
			if i > lo {
				after["k"] = B(V.entry(i - 1).K)
			}
			return []Ev{V.ev(max0(i - 1)), {"op": "succ", "d": 1, "p": B(p), "text": B(p), "after": after, "r": more, "k": B(k), "v": v, "n": n}}
		})
		if !good {
			return
		}
	}
	rc := dawg.NewRankedCompleter(d, rg)
	rc.Start(d.Root())
	last := int32(0x7fffffff)
	for i := 0; i < min(span, samples)+3; i++ {
		if !rc.Next() {
			c.Obs(false, func() []Ev {
				return []Ev{{"op": "kept", "what": "the ranked listing goes on", "before": true, "after": false}}
			})
			return
		}
		k, v, n := []byte(rc.Key()), rc.Value(), rc.Length()
		at := V.at(k)
		l := last
		c.Obs(v <= l, func() []Ev { return []Ev{{"op": "descend", "before": l, "now": v}} })
		c.Obs(at >= 0 && n == len(k) && v == V.value(k), func() []Ev {
			return []Ev{V.ev(max0(at)), {"op": "ranked", "d": 1, "p": []int{}, "text": []int{}, "k": B(k), "v": v, "n": n}}
		})
		last = v
	}
}
func (V vastLex) at(k []byte) int {
	if len(k) != V.m {
		return -1
	}
	i := 0
	for _, b := range k {
		j := bytes.IndexByte(V.alpha, b)
		if j < 0 {
			return -1
		}
		i = i*len(V.alpha) + j
	}
	return i
}

func mkFamily(L Lex) *family {
	a, _ := buildAuto(L)
	return mkFamilyOf(L, a)
}
func mkFamilyOf(L Lex, a *dawg.Dawg) *family {
	d := a.Build()
	g := dawg.BuildGuide(a, d)
	rg := dawg.BuildRankedGuide(a, d)
	return &family{L: L, dict: d, guide: g, rg: rg, idx: dawg.BuildIndex(d, g), ridx: dawg.BuildIndex(d, rg)}
}
