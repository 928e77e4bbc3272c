package main

// Histories of builders, automata and dictionaries (trace specification TraceSystem).

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"math/rand"
	"os"

	"github.com/deNULL/dawg"
)

func init() {
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}

func readLines(path string) [][]byte {
	f, err := os.Open(path)
	if err != nil {
		die("%v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var out [][]byte
	for sc.Scan() {
		b := sc.Bytes()
		if len(b) > 3 && string(b[:3]) == "VEC" {
			out = append(out, append([]byte{}, b[3:]...))
		}
	}
	if len(out) == 0 {
		die("no histories in %s", path)
	}
	return out
}

// insertSomehow calls one of the insertion functions.
func insertSomehow(rng *rand.Rand, b *dawg.DawgBuilder, k []byte, v int32) bool {
	switch {
	case v == 0 && rng.Intn(2) == 0:
		return b.InsertString(string(k))
	case rng.Intn(3) == 0:
		return b.InsertStringValue(string(k), v)
	case rng.Intn(2) == 0:
		// a longer buffer than the key
		buf := append(append([]byte{}, k...), 'q', 0, 255)
		r := b.InsertKeyValue(buf, len(k), v)
		for i := range buf { // the builder must not hold on to it
			buf[i] = 'w'
		}
		return r
	}
	return b.InsertKeyValue(append([]byte{}, k...), len(k), v)
}

// oneHistory plays insertions into builder 1 and looks at what comes out.
func oneHistory(c *Ctx, calls []Entry, ps [][]byte) {
	size := 256
	if c.rng.Intn(2) == 0 {
		size = 1 + c.rng.Intn(20)
	}
	b := dawg.NewDawgBuilderWithSize(size)
	c.Seq(true, Ev{"op": "builder", "b": 1})
	var L Lex
	for _, e := range calls {
		want := L.accepts(e.K, e.V)
		if want {
			L = L.insert(e.K, e.V)
		}
		r := insertSomehow(c.rng, b, e.K, e.V)
		c.Seq(r == want, Ev{"op": "insert", "b": 1, "k": B(e.K), "v": e.V, "r": r})
		if r != want {
			return
		}
	}
	a := dawg.NewDawg()
	b.Finish(a)
	d := a.Build()
	c.Seq(true, Ev{"op": "finish", "b": 1, "a": 1})
	c.Seq(true, Ev{"op": "build", "a": 1, "d": 1})
	c.r.seen(L.hash()^uint64(len(calls)), len(calls) > len(L))
	for _, e := range calls {
		r := findAll(d, e.K, nil)
		c.Seq(r.ok(L.find(e.K)), r.ev(1, e.K))
	}
	for _, p := range ps {
		r := findAll(d, p, nil)
		c.Seq(r.ok(L.find(p)), r.ev(1, p))
	}
	// no trace of the refused ones: the same as built from the accepted ones alone
	if c.rng.Intn(2) == 0 || c.seqBad > 0 {
		ref, _ := buildAuto(L)
		dg, want := digest(c, d, a), digest(c, ref.Build(), ref)
		c.Seq(true, Ev{"op": "lexicon", "d": 9, "below": 0, "total": len(L), "win": L.json()})
		c.Seq(true, Ev{"op": "bytes", "d": 9, "digest": want})
		c.Seq(dg == want, Ev{"op": "bytes", "d": 1, "digest": dg})
	}
	g := dawg.BuildGuide(a, d)
	c.Seq(true, Ev{"op": "start", "c": 1, "d": 1, "p": []int{}, "text": []int{}, "kind": "ascending"})
	cp := dawg.NewCompleter(d, g)
	cp.Start(d.Root())
	out, ended := listing(cp, len(L)+2)
	for i, o := range out {
		good := i < len(L) && eqBytes(o.k, L[i].K) && o.v == L[i].V && o.n == len(o.k)
		c.Seq(good, Ev{"op": "next", "c": 1, "r": true, "k": B(o.k), "v": o.v, "n": o.n})
	}
	if ended {
		c.Seq(len(out) == len(L), Ev{"op": "next", "c": 1, "r": false, "k": []int{}, "v": 0, "n": 0})
	}
}

// digest of everything saved from an automaton.
func digest(c *Ctx, d *dawg.Dictionary, a *dawg.Dawg) string {
	h := sha256.New()
	if d == nil || !d.Write(h) {
		return "failed"
	}
	g := dawg.BuildGuide(a, d)
	rg := dawg.BuildRankedGuide(a, d)
	if g == nil || rg == nil || !g.Write(h) || !rg.Write(h) {
		return "failed"
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}
func dictDigest(d *dawg.Dictionary) string {
	h := sha256.New()
	if d == nil || !d.Write(h) {
		return "failed"
	}
	return hex.EncodeToString(h.Sum(nil)[:8])
}

func randomCalls(rng *rand.Rand, n int) []Entry {
	alpha := pickAlphabet(rng, 2+rng.Intn(3))
	ml := 1 + rng.Intn(5)
	var calls []Entry
	var last []byte
	for i := 0; i < n; i++ {
		var k []byte
		switch rng.Intn(10) {
		case 0:
			k = append([]byte{}, last...) // again
		case 1:
			k = randKey(rng, alpha, ml)
		case 2: // shorter
			k = append([]byte{}, last[:rng.Intn(len(last)+1)]...)
		case 3:
			k = append(append([]byte{}, last...), alpha[rng.Intn(len(alpha))])
		case 4: // null byte
			k = append([]byte{}, last...)
			if len(k) > 0 && rng.Intn(2) == 0 {
				k[rng.Intn(len(k))] = 0
			} else {
				k = append(k, 0)
			}
		default: // somewhat above
			k = append([]byte{}, last...)
			if len(k) > 0 {
				j := rng.Intn(len(k))
				k = k[:j+1]
				if k[j] < 255 {
					k[j] += byte(1 + rng.Intn(int(256-int(k[j])-1)))
				}
			}
			for rng.Intn(2) == 0 {
				k = append(k, alpha[rng.Intn(len(alpha))])
			}
		}
		v := valueOf(rng, rng.Intn(vKinds), i, k)
		if rng.Intn(12) == 0 {
			v = -1 - v
		}
		calls = append(calls, Entry{k, v})
		if storable(k, v) && bytes.Compare(k, last) >= 0 {
			last = k
		}
	}
	return calls
}

func histories(r *Run, n int, long bool) {
	r.suiteRunEvery("hist", "TraceSystem", n, 8, n/60+1, func(c *Ctx) {
		m := 1 + c.rng.Intn(14)
		if long && c.rng.Intn(8) == 0 {
			m = 20 + c.rng.Intn(60)
		}
		calls := randomCalls(c.rng, m)
		var L Lex
		for _, e := range calls {
			if L.accepts(e.K, e.V) {
				L = L.insert(e.K, e.V)
			}
		}
		oneHistory(c, calls, probes(c.rng, L, 12))
	})
}

func checkC03(r *Run) {
	if p := extra["histories"]; p != "" {
		lines := readLines(p)
		r.note("spec_histories_replayed", int64(len(lines)))
		r.suiteRunEvery("spechist", "TraceSystem", len(lines), 8, len(lines)/80+1, func(c *Ctx) {
			var h struct {
				Hist []struct {
					K []int
					V int32
					R bool
				}
				Lex []vKV
			}
			if err := json.Unmarshal(lines[c.idx], &h); err != nil {
				die("bad history: %v", err)
			}
			bm := byteMaps[c.rng.Intn(len(byteMaps))]
			vm := valMaps[c.rng.Intn(len(valMaps))]
			var calls []Entry
			var L Lex
			for _, x := range h.Hist {
				k := make([]byte, len(x.K))
				for i, s := range x.K {
					k[i] = bm[s]
				}
				v := x.V
				if v >= 0 {
					v = vm[v]
				} else if c.rng.Intn(2) == 0 {
					v = -0x80000000
				}
				if L.accepts(k, v) != x.R {
					die("the mirror disagrees with the specification on history %s", lines[c.idx])
				}
				if x.R {
					L = L.insert(k, v)
				}
				calls = append(calls, Entry{k, v})
			}
			if len(L) != len(h.Lex) {
				die("the mirror disagrees with the specification on history %s", lines[c.idx])
			}
			oneHistory(c, calls, nil)
		})
	}
	histories(r, r.pick(8000, 150000), true)
	// Long keys: lengths around powers of two, and refusals among them.
	r.suiteRunEvery("longhist", "TraceSystem", r.pick(30, 300), 8, 1000, func(c *Ctx) {
		c.sampled = false // too long for TLC when there is nothing to see
		L := longKeys(c.rng, c.idx)
		b := dawg.NewDawgBuilderWithSize(1 + c.rng.Intn(300))
		c.r.seen(L.hash(), true)
		ins := func(i int, k []byte, v int32) {
			want := Lex(L[max0(i-1):i]).accepts(k, v)
			buf := append(append(make([]byte, 0, len(k)+2), k...), 'x', 0)
			got := b.InsertKeyValue(buf, len(k), v)
			if len(k)&1 == 0 && bytes.IndexByte(k, 0) < 0 && got && v != 0 {
				got = b.InsertStringValue(string(k), v)
			}
			c.Obs(got == want, func() []Ev {
				return []Ev{{"op": "listing", "b": 1, "L": L[max0(i-1):i].json()}, {"op": "insert", "b": 1, "k": B(k), "v": v, "r": got}}
			})
		}
		for i, e := range L {
			if i > 0 {
				o := L[i-1].K
				ins(i, o[:len(o)-1-c.rng.Intn(min(3, len(o)))], 1) // below the last key
				ins(i, append(append([]byte{}, e.K...), 0), 1)
				k := append([]byte{}, e.K...)
				k[len(k)-1] = 0
				ins(i, k, 1)
				k[c.rng.Intn(len(k))] = 0
				ins(i, k, 1)
				ins(i, e.K, -1)
				ins(i, o, L[i-1].V)
				// later than the last key, but for one byte far down
				k = append([]byte{}, o...)
				k[len(k)-1-c.rng.Intn(min(4, len(k)))]--
				ins(i, k, 1)
			}
			ins(i, e.K, e.V)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		d := a.Build()
		for _, e := range L {
			checkFind(c, L, d, e.K)
		}
		for _, p := range probes(c.rng, L, 100) {
			checkFind(c, L, d, p)
		}
		ref, _ := buildAuto(L)
		x, y := digest(c, d, a), digest(c, ref.Build(), ref)
		c.Obs(x == y, func() []Ev {
			return []Ev{{"op": "kept", "what": "bytes saved with and without refused insertions", "before": y, "after": x}}
		})
	})
	// Refusals into large builders: only the neighbourhood matters.
	r.suiteRunEvery("largehist", "TraceSystem", r.pick(40, 500), 8, 2, func(c *Ctx) {
		L := mediumLex(c.rng)
		b := dawg.NewDawgBuilderWithSize(1 + c.rng.Intn(300))
		c.r.seen(L.hash(), true)
		type odd struct {
			i int
			e Entry
			r bool
		}
		ins := func(i int, e Entry) {
			want := Lex(L[max0(i-1):i]).accepts(e.K, e.V)
			got := b.InsertKeyValue(e.K, len(e.K), e.V)
			c.Obs(got == want, func() []Ev {
				return []Ev{{"op": "listing", "b": 1, "L": L[max0(i-1):i].json()}, {"op": "insert", "b": 1, "k": B(e.K), "v": e.V, "r": got}}
			})
		}
		for i, e := range L {
			// refused: earlier keys, their prefixes, null bytes, negative values; accepted twice: the same
			for c.rng.Intn(3) == 0 && i > 0 {
				o := L[c.rng.Intn(i)]
				if c.rng.Intn(3) == 0 {
					o = L[i-1]
				}
				k := append([]byte{}, o.K...)
				switch c.rng.Intn(5) {
				case 0:
					k = k[:c.rng.Intn(len(k)+1)]
				case 1:
					k = append(k, 0)
				case 2:
					o.V = -1 - o.V
				}
				if bytes.Compare(k, L[i-1].K) <= 0 && !(bytes.Equal(k, L[i-1].K) && o.V >= 0) || !storable(k, o.V) {
					ins(i, Entry{k, o.V})
				} else if bytes.Equal(k, L[i-1].K) { // replaces the value: do it and put the value back
					ins(i, Entry{k, o.V})
					ins(i, L[i-1])
				}
			}
			ins(i, e)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		d := a.Build()
		for _, e := range L {
			checkFind(c, L, d, e.K)
		}
		for _, p := range probes(c.rng, L, 400) {
			checkFind(c, L, d, p)
		}
		ref, _ := buildAuto(L)
		x, y := digest(c, d, a), digest(c, ref.Build(), ref)
		c.Obs(x == y, func() []Ev {
			return []Ev{{"op": "kept", "what": "bytes saved with and without refused insertions", "before": y, "after": x}}
		})
	})
}

// ---- C04 ----------------------------------------------------------------

type sysCall struct {
	Op string `json:"op"`
	B  int    `json:"b"`
	A  int    `json:"a"`
	D  int    `json:"d"`
	K  []int  `json:"k"`
	V  int32  `json:"v"`
	R  bool   `json:"r"`
}

type sysState struct {
	b     map[int]*dawg.DawgBuilder
	bl    map[int]Lex
	a     map[int]*dawg.Dawg
	al    map[int]Lex
	fresh map[int]bool // never finished into (or cleared)
	d     map[int]*dawg.Dictionary
	dl    map[int]Lex
	ref   map[string]string // listing -> digest of a clean build
	refN  int
}

func (s *sysState) key(L Lex) string {
	js, _ := json.Marshal(L.json())
	return string(js)
}

// reference builds the listing with new objects and records what it is saved as.
func (s *sysState) reference(c *Ctx, L Lex) string {
	k := s.key(L)
	if d, ok := s.ref[k]; ok {
		return d
	}
	dg := dictDigest(freshAuto(L).Build())
	s.ref[k] = dg
	s.refN++
	id := 1000 + s.refN
	c.Seq(true, Ev{"op": "lexicon", "d": id, "below": 0, "total": len(L), "win": L.json()})
	c.Seq(true, Ev{"op": "bytes", "d": id, "digest": dg})
	return dg
}

func newSys(c *Ctx, nb, na int) *sysState {
	s := &sysState{map[int]*dawg.DawgBuilder{}, map[int]Lex{}, map[int]*dawg.Dawg{}, map[int]Lex{}, map[int]bool{}, map[int]*dawg.Dictionary{}, map[int]Lex{}, map[string]string{}, 0}
	for i := 1; i <= nb; i++ {
		if c.rng.Intn(2) == 0 {
			s.b[i] = dawg.NewDawgBuilder()
		} else {
			s.b[i] = dawg.NewDawgBuilderWithSize(1 + c.rng.Intn(12))
		}
		c.Seq(true, Ev{"op": "builder", "b": i})
	}
	for i := 1; i <= na; i++ {
		s.a[i] = dawg.NewDawg()
		s.fresh[i] = true
		c.Seq(true, Ev{"op": "auto", "a": i})
	}
	return s
}

// do plays one call; false: something looks wrong.
func (s *sysState) do(c *Ctx, x sysCall, k []byte) bool {
	switch x.Op {
	case "insert":
		L := s.bl[x.B]
		want := L.accepts(k, x.V)
		if want {
			s.bl[x.B] = L.insert(k, x.V)
		}
		r := insertSomehow(c.rng, s.b[x.B], k, x.V)
		c.Seq(r == want, Ev{"op": "insert", "b": x.B, "k": B(k), "v": x.V, "r": r})
		return r == want
	case "finish":
		s.b[x.B].Finish(s.a[x.A])
		s.al[x.A] = s.bl[x.B]
		s.bl[x.B] = nil
		s.fresh[x.A] = false
		c.Seq(true, Ev{"op": "finish", "b": x.B, "a": x.A})
	case "clear":
		s.a[x.A].Clear()
		s.al[x.A] = nil
		s.fresh[x.A] = true
		c.Seq(true, Ev{"op": "clear", "a": x.A})
	case "build":
		var unused uint32
		if c.rng.Intn(2) == 0 {
			s.d[x.D] = s.a[x.A].Build()
		} else {
			s.d[x.D] = s.a[x.A].BuildWithUnused(&unused)
		}
		s.dl[x.D] = s.al[x.A]
		c.Seq(true, Ev{"op": "build", "a": x.A, "d": x.D})
		return s.lookDict(c, x.D)
	}
	return true
}

func (s *sysState) lookDict(c *Ctx, d int) bool {
	want := s.reference(c, s.dl[d])
	got := dictDigest(s.d[d])
	c.Seq(got == want, Ev{"op": "bytes", "d": d, "digest": got})
	return got == want
}

func (s *sysState) lookAuto(c *Ctx, a int) bool {
	if s.fresh[a] { // no counters are promised before it holds anything
		return true
	}
	got := counters(s.a[a])
	want := sizesOf(s.al[a])
	c.Seq(got == want, Ev{"op": "counters", "a": a, "sizes": got.ev()})
	return got == want
}

func (s *sysState) lookAll(c *Ctx) bool {
	for i := 1; i <= len(s.a); i++ {
		if !s.lookAuto(c, i) {
			return false
		}
		// what it holds, by building from it
		id := 500 + i
		s.d[id] = s.a[i].Build()
		s.dl[id] = s.al[i]
		c.Seq(true, Ev{"op": "build", "a": i, "d": id})
	}
	for id := range s.d {
		if !s.lookDict(c, id) {
			return false
		}
	}
	return true
}

func (s *sysState) finds(c *Ctx, alpha []byte) bool {
	for id, d := range s.d {
		L := s.dl[id]
		var ps [][]byte
		for _, e := range L {
			ps = append(ps, e.K)
		}
		ps = append(ps, probes(c.rng, L, 5)...)
		for _, p := range ps {
			r := findAll(d, p, nil)
			ok := r.ok(L.find(p))
			c.Seq(ok, r.ev(id, p))
			if !ok {
				return false
			}
		}
	}
	return true
}

func checkC04(r *Run) {
	if p := extra["systems"]; p != "" {
		lines := readLines(p)
		r.note("spec_histories_replayed", int64(len(lines)))
		r.suiteRunEvery("specsys", "TraceSystem", len(lines), 8, len(lines)/80+1, func(c *Ctx) {
			var h struct{ Hist []sysCall }
			if err := json.Unmarshal(lines[c.idx], &h); err != nil {
				die("bad history: %v", err)
			}
			bm := byteMaps[c.rng.Intn(len(byteMaps))]
			s := newSys(c, 2, 2)
			for _, x := range h.Hist {
				k := make([]byte, len(x.K))
				for i, q := range x.K {
					k[i] = bm[q]
				}
				if x.Op == "insert" && s.bl[x.B].accepts(k, x.V) != x.R {
					die("the mirror disagrees with the specification on history %s", lines[c.idx])
				}
				if !s.do(c, x, k) {
					return
				}
			}
			if s.lookAll(c) {
				s.finds(c, bm)
			}
			c.r.seen(hashBytes(lines[c.idx]), true)
		})
	}
	r.suiteRunEvery("system", "TraceSystem", r.pick(4000, 80000), 8, r.pick(4000, 80000)/60, func(c *Ctx) {
		nb, na := 1+c.rng.Intn(2), 1+c.rng.Intn(3)
		s := newSys(c, nb, na)
		nd := 0
		alpha := pickAlphabet(c.rng, 2+c.rng.Intn(4))
		for i := 0; i < 6+c.rng.Intn(30); i++ {
			x := sysCall{B: 1 + c.rng.Intn(nb), A: 1 + c.rng.Intn(na)}
			var k []byte
			switch q := c.rng.Intn(20); {
			case q < 12:
				x.Op = "insert"
				x.V = int32(c.rng.Intn(3))
				if L := s.bl[x.B]; len(L) > 0 && c.rng.Intn(4) > 0 {
					k = append(append([]byte{}, L[len(L)-1].K...), alpha[c.rng.Intn(len(alpha))])
					if len(k) > 1 && c.rng.Intn(2) == 0 {
						k = k[:len(k)-1]
						k[len(k)-1]++
						if k[len(k)-1] == 0 {
							k[len(k)-1] = 255
						}
					}
				} else {
					k = randKey(c.rng, alpha, 4)
				}
			case q < 15:
				x.Op = "finish"
			case q < 16:
				x.Op = "clear"
			default:
				x.Op = "build"
				nd++
				x.D = nd
			}
			if !s.do(c, x, k) {
				return
			}
			if x.Op == "finish" && c.rng.Intn(2) == 0 && !s.lookAuto(c, x.A) {
				return
			}
			if c.rng.Intn(10) == 0 {
				for id := range s.d {
					if !s.lookDict(c, id) {
						return
					}
				}
			}
		}
		if s.lookAll(c) {
			s.finds(c, alpha)
		}
		c.r.seen(uint64(caseSeed(c.r.seed, c.suite, c.idx)), true)
	})
	// Larger ones: same bytes from a used builder and automaton, other table sizes, after refusals.
	r.suiteRunEvery("largesys", "TraceSystem", r.pick(60, 900), 8, 3, func(c *Ctx) {
		b := dawg.NewDawgBuilderWithSize(1 + c.rng.Intn(1<<uint(c.rng.Intn(14))))
		autos := []*dawg.Dawg{dawg.NewDawg(), dawg.NewDawg()}
		type kept struct {
			d    *dawg.Dictionary
			dg   string
			L    Lex
			what string
		}
		var ks []kept
		var held [2]Lex
		for round := 0; round < 3; round++ {
			L := mediumLex(c.rng)
			if c.rng.Intn(3) == 0 {
				L = smallLex(c.rng)
			}
			c.r.seen(L.hash(), true)
			for i, e := range L {
				b.InsertKeyValue(e.K, len(e.K), e.V)
				if i > 0 && c.rng.Intn(10) == 0 {
					o := L[c.rng.Intn(i)]
					b.InsertKeyValue(o.K, len(o.K), o.V)
				}
			}
			x := c.rng.Intn(2)
			b.Finish(autos[x])
			held[x] = L
			d := autos[x].Build()
			ref := freshAuto(L)
			got, want := digest(c, d, autos[x]), digest(c, ref.Build(), ref)
			c.Obs(got == want, func() []Ev {
				return []Ev{{"op": "kept", "what": "bytes of a build by used and by new objects", "before": want, "after": got}}
			})
			gs, ws := counters(autos[x]), counters(ref)
			c.Obs(gs == ws, func() []Ev {
				return []Ev{{"op": "kept", "what": "counters of a build by new and by used objects", "before": ws.ev(), "after": gs.ev()}}
			})
			ks = append(ks, kept{d, dictDigest(d), L, ""})
			for _, k := range ks {
				now := dictDigest(k.d)
				was := k.dg
				c.Obs(now == was, func() []Ev {
					return []Ev{{"op": "kept", "what": "bytes of an earlier dictionary", "before": was, "after": now}}
				})
				for _, p := range probes(c.rng, k.L, 60) {
					checkFind(c, k.L, k.d, p)
				}
			}
			// and the other automaton still holds what it did
			if o := held[1-x]; o != nil {
				ref := freshAuto(o)
				was, now := dictDigest(ref.Build()), dictDigest(autos[1-x].Build())
				c.Obs(now == was, func() []Ev {
					return []Ev{{"op": "kept", "what": "an automaton finished earlier", "before": was, "after": now}}
				})
			}
		}
	})
	// Dictionaries, guides and indices built again into objects that were in use.
	r.suiteRunEvery("objects", "TraceSystem", r.pick(1200, 20000), 8, r.pick(1200, 20000)/40, func(c *Ctx) {
		d, g, x, rx := dawg.NewDictionary(), dawg.NewGuide(), dawg.NewIndex(), dawg.NewIndex()
		alpha := pickAlphabet(c.rng, 3)
		a := dawg.NewDawg()
		b := dawg.NewDawgBuilder()
		for round := 0; round < 4; round++ {
			var L Lex
			switch c.rng.Intn(8) {
			case 0: // no keys
			case 1:
				L = Lex{{[]byte{}, int32(c.rng.Intn(4))}}
			case 2, 3:
				L = smallLex(c.rng)
			case 4:
				if c.rng.Intn(12) == 0 {
					L = mediumLex(c.rng)
				}
			default:
				var es []Entry
				for i := c.rng.Intn(12); i >= 0; i-- {
					es = append(es, Entry{randKey(c.rng, alpha, 3), int32(c.rng.Intn(3))})
				}
				L = normal(es)
			}
			c.r.seen(L.hash(), len(L) >= 2)
			for _, e := range L {
				b.InsertKeyValue(e.K, len(e.K), e.V)
			}
			b.Finish(a)
			if c.rng.Intn(6) == 0 {
				g.Clear()
			}
			okd := dawg.NewDictionaryBuilder(a, d).BuildDictionary()
			okg := dawg.NewGuideBuilder(a, d, g).Build()
			rg := dawg.BuildRankedGuide(a, d)
			okx := dawg.NewIndexBuilder(d, g, x).Build()
			okr := dawg.NewIndexBuilder(d, rg, rx).Build()
			fa := freshAuto(L)
			f := mkFamilyOf(L, fa)
			for i, p := range []part{d, g, rg, x, rx} {
				got := "not built"
				if []bool{okd, okg, rg != nil, okx, okr}[i] {
					got = look(partKinds[i], p).dig
				}
				want := look(partKinds[i], f.parts()[i]).dig
				what := "bytes of a " + partKinds[i] + " built into a new object and into one in use"
				c.Obs(got == want, func() []Ev { return []Ev{{"op": "kept", "what": what, "before": want, "after": got}} })
			}
		}
	})
}

func hashBytes(b []byte) uint64 {
	h := sha256.Sum256(b)
	var x uint64
	for i := 0; i < 8; i++ {
		x = x<<8 | uint64(h[i])
	}
	return x
}
