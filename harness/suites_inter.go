package main

// Many readers of the same data, interleaved and at the same time (trace specification TraceSystem;
// TraceUtfc for the encodings).

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/deNULL/dawg"
)

func init() { checks["C17"] = checkC17 }

// keeper holds on to results and looks at them again later.
type keeper struct {
	what  []string
	strs  []string
	bufs  [][]byte
	wants [][]byte
}

func (k *keeper) str(what, s string) {
	k.what = append(k.what, what)
	k.strs = append(k.strs, s)
	k.bufs = append(k.bufs, nil)
	k.wants = append(k.wants, append([]byte{}, s...))
}
func (k *keeper) buf(what string, b []byte) {
	k.what = append(k.what, what)
	k.strs = append(k.strs, "")
	k.bufs = append(k.bufs, b)
	k.wants = append(k.wants, append([]byte{}, b...))
}
func (k *keeper) check(c *Ctx) {
	for i := range k.wants {
		now := k.bufs[i]
		if now == nil {
			now = []byte(k.strs[i])
		}
		w := k.wants[i]
		what := k.what[i]
		c.Obs(bytes.Equal(now, w), func() []Ev {
			return []Ev{{"op": "kept", "what": what, "before": B(w), "after": B(now)}}
		})
	}
}

// mcur mirrors a cursor of the specification.
type mcur struct {
	cp     completer
	ranked bool
	live   bool
	left   Lex
	id     int
}

func (m *mcur) start(c *Ctx, s *Sut, p, text []byte, how int) bool {
	ix, ok := follow(s.dict, p)
	if !ok {
		checkFollow(c, s.L, s.dict, p, 0)
		return false
	}
	switch {
	case len(text) == 0 && how%3 == 0:
		m.cp.Start(ix)
	case how%3 == 1:
		m.cp.StartString(ix, string(text))
	default:
		m.cp.StartStringLen(ix, string(text)+"zz", len(text))
	}
	lo, hi := s.L.under(p)
	m.left = nil
	for _, e := range s.L[lo:hi] {
		m.left = append(m.left, Entry{append(append([]byte{}, text...), e.K[len(p):]...), e.V})
	}
	m.live = true
	kind := "ascending"
	if m.ranked {
		kind = "ranked"
	}
	c.Seq(true, Ev{"op": "start", "c": m.id, "d": 1, "p": B(p), "text": B(text), "kind": kind})
	return true
}

func (m *mcur) next(c *Ctx, k *keeper) bool {
	more := m.cp.Next()
	ev := Ev{"op": "next", "c": m.id, "r": more, "k": []int{}, "v": 0, "n": 0}
	good := true
	if !more {
		good = len(m.left) == 0
	} else {
		key, v, n := m.cp.Key(), m.cp.Value(), m.cp.Length()
		if k != nil {
			k.str("Key", key)
		}
		ev["k"], ev["v"], ev["n"] = S(key), v, n
		good = false
		for j, e := range m.left {
			if string(e.K) == key && e.V == v && n == len(key) {
				good = m.ranked || j == 0
				for _, o := range m.left {
					if m.ranked && o.V > v {
						good = false
					}
				}
				m.left = append(append(Lex{}, m.left[:j]...), m.left[j+1:]...)
				break
			}
		}
	}
	c.Seq(good, ev)
	return good
}

func (s *Sut) cursor(ranked bool, id int) *mcur {
	if ranked {
		return &mcur{cp: dawg.NewRankedCompleter(s.dict, s.rg), ranked: true, id: id}
	}
	return &mcur{cp: dawg.NewCompleter(s.dict, s.guide), id: id}
}

func (s *Sut) digests() []string {
	f := &family{s.L, s.dict, s.guide, s.rg, s.idx, s.ridx}
	var r []string
	for i, p := range f.parts() {
		k := look(partKinds[i], p)
		r = append(r, fmt.Sprintf("%s n=%d total=%d file=%d", k.dig, k.n, k.total, k.ann))
	}
	return append(r, fmt.Sprint("root ", s.dict.Root(), s.guide.Root(), s.rg.Root()))
}

// shared remembers what the parts look like before they are shared.
func (s *Sut) shared() []string {
	s.looks = s.digests()
	s.autoLooks = strings.Join(autoLook(s.auto), " ")
	return s.looks
}

// sharedFresh does it by a twin, so that the parts come to their readers as they were built.
func (s *Sut) sharedFresh() []string {
	a, _ := buildAuto(s.L)
	t := &Sut{L: s.L, auto: a, salt: s.salt}
	t.complete(wAll)
	s.looks = t.shared()
	s.autoLooks = t.autoLooks
	return s.looks
}

// autoLook is all an automaton says of itself.
func autoLook(a *dawg.Dawg) []string {
	root, states, merging, _ := graphOf(a, 1<<20)
	h := sha256.New()
	fmt.Fprint(h, root, states, merging)
	return []string{fmt.Sprint(counters(a), a.Size(), a.Root()), hex.EncodeToString(h.Sum(nil)[:8])}
}
func sharedKept(c *Ctx, s *Sut, before []string) {
	after := s.digests()
	c.Obs(strings.Join(before, " ") == strings.Join(after, " "), func() []Ev {
		return []Ev{{"op": "kept", "what": "shared data", "before": before, "after": after}}
	})
}

// replayCursors plays one interleaving of the specification.
func replayCursors(r *Run) {
	lines := readLines(extra["cursors"])
	seen := map[string]bool{}
	var uniq [][]byte
	for _, l := range lines {
		if !seen[string(l)] {
			seen[string(l)] = true
			uniq = append(uniq, l)
		}
	}
	sortLines(uniq)
	step := r.pick(3, 1)
	n := len(uniq) / step
	r.note("spec_interleavings_replayed", int64(n))
	r.suiteRunEvery("speccur", "TraceSystem", n, 8, n/60+1, func(c *Ctx) {
		var h struct {
			Hist []struct {
				Op    string
				C     int
				P     []int
				Kinds []string
			}
			Lex []vKV
		}
		if err := json.Unmarshal(uniq[c.idx*step+int(r.seed)%step], &h); err != nil {
			die("bad history: %v", err)
		}
		bm := byteMaps[c.rng.Intn(len(byteMaps))]
		mp := func(s []int) []byte {
			k := make([]byte, len(s))
			for i, x := range s {
				k[i] = bm[x]
			}
			return k
		}
		vm := []int32{0, 3, 5, 1 << 20}
		if c.rng.Intn(2) == 0 {
			vm = []int32{0, 1, 2, 3}
		}
		var L Lex
		for _, e := range h.Lex {
			L = append(L, Entry{mp(e.K), vm[e.V]})
		}
		s := mk(c, L, wGuide|wRanked)
		c.Seq(true, L.windowAt(1, 0, len(L)))
		k := &keeper{}
		var cur [3]*mcur
		r.seen(uint64(c.idx)<<20, true)
		for _, x := range h.Hist {
			switch x.Op {
			case "make":
				for i, kd := range x.Kinds {
					cur[i+1] = s.cursor(kd == "ranked", i+1)
				}
			case "start":
				if !cur[x.C].start(c, s, mp(x.P), nil, c.rng.Intn(3)) {
					return
				}
			case "next":
				if !cur[x.C].next(c, k) {
					return
				}
			}
		}
		k.check(c)
	})
}

func sortLines(ls [][]byte) {
	// TLC prints in no particular order
	m := make([]string, len(ls))
	for i, l := range ls {
		m[i] = string(l)
	}
	sort.Strings(m)
	for i := range m {
		ls[i] = []byte(m[i])
	}
}

// someCall makes a random call of a reader, keeping what it returns.
func someCall(c *Ctx, s *Sut, k *keeper, ps [][]byte, texts [][]rune, alone [][]byte) {
	L := s.L
	p := ps[c.rng.Intn(len(ps))]
	switch c.rng.Intn(13) {
	case 10: // what each part says of itself, and its saved bytes
		sharedKept(c, s, s.looks)
	case 11:
		checkTotal(c, L, s.ixr, s.idx)
		checkTotal(c, L, s.rixr, s.ridx)
	case 12: // the automaton
		now := strings.Join(autoLook(s.auto), " ")
		c.Obs(now == s.autoLooks, func() []Ev {
			return []Ev{{"op": "kept", "what": "automaton", "before": s.autoLooks, "after": now}}
		})
	case 0:
		checkFind(c, L, s.dict, p)
	case 1:
		checkFollow(c, L, s.dict, p, c.rng.Intn(5))
	case 2:
		checkRank(c, L, s.ixr, p)
	case 3:
		i := uint32(c.rng.Intn(len(L) + 1))
		checkKeyAt(c, L, s.ixr, i)
		k.buf("IndexToBytes", s.ixr.IndexToBytes(i))
		k.str("IndexToString", s.ixr.IndexToString(i))
	case 4:
		checkNumOf(c, L, s.rixr, p)
	case 5:
		i := uint32(c.rng.Intn(len(L) + 1))
		checkNumAt(c, L, s.rixr, i)
		k.buf("IndexToBytes (ranked)", s.rixr.IndexToBytes(i))
	case 6:
		q := somePositions(c.rng, L, 2)
		q0 := q[len(q)-1]
		if ix, ok := follow(s.dict, q0); ok {
			lo, hi := L.under(q0)
			checkNode(c, L, s.dict, q0, ix, lo, hi)
		} else {
			checkFollow(c, L, s.dict, q0, 0)
		}
	default:
		i := c.rng.Intn(len(texts))
		b := dawg.UtfcEncode(str(texts[i]))
		k.buf("UtfcEncode", b)
		c.Obs(bytes.Equal(b, alone[i]), func() []Ev {
			return []Ev{{"op": "kept", "what": "UtfcEncode", "before": B(alone[i]), "after": B(b)}}
		})
		back, _ := decode(b)
		k.str("UtfcDecode", back)
		want := str(texts[i])
		c.Obs(back == want, func() []Ev {
			return []Ev{{"op": "kept", "what": "UtfcDecode", "before": S(want), "after": S(back)}}
		})
	}
}

func textsAlone(rng *rand.Rand, n int) (ts [][]rune, alone [][]byte) {
	for i := 0; i < n; i++ {
		t := randText(rng, 1+rng.Intn(9))
		ts = append(ts, t)
		alone = append(alone, append([]byte{}, dawg.UtfcEncode(str(t))...))
	}
	return
}

// fork makes a recorder for another goroutine of the same case.
func (c *Ctx) fork(seed int64) *Ctx {
	d := &Ctx{r: c.r, id: c.id, suite: c.suite, idx: c.idx, spec: c.spec, maxSamp: c.maxSamp / 2, sampled: c.sampled}
	d.rng = rand.New(rand.NewSource(seed))
	return d
}

// together runs n jobs at the same time, each with its own recorder, and appends what they recorded.
// Only one of them may use Seq for a given set of cursor identifiers.
func together(c *Ctx, n int, job func(d *Ctx, g int)) {
	ds := make([]*Ctx, n)
	pan := make([]interface{}, n)
	var wg, ready sync.WaitGroup
	ready.Add(n)
	for g := 0; g < n; g++ {
		ds[g] = c.fork(c.rng.Int63())
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() { pan[g] = recover() }()
			ready.Done()
			ready.Wait()
			job(ds[g], g)
		}(g)
	}
	wg.Wait()
	for g, d := range ds {
		if pan[g] != nil {
			panic(pan[g])
		}
		c.nobs += d.nobs
		if d.seqBad > 0 {
			c.sus = append(append(c.sus, d.seq[:d.seqBad]...), d.sus...)
		} else {
			c.sus = append(c.sus, d.sus...)
		}
		if len(c.samp) < 3*c.maxSamp {
			c.samp = append(append(c.samp, d.seq...), d.samp...)
		}
	}
}

func checkC17(r *Run) {
	replayCursors(r)
	// one goroutine, everything mixed
	r.suiteRunEvery("mixed", "TraceSystem", r.pick(1500, 20000), 8, r.pick(1500, 20000)/60, func(c *Ctx) {
		L := smallLex(c.rng)
		if len(L) == 0 || len(L) > 40 {
			return
		}
		s := mk(c, L, wAll)
		before := s.shared()
		c.Seq(true, L.windowAt(1, 0, len(L)))
		k := &keeper{}
		var curs []*mcur
		for i := 0; i < 4; i++ {
			curs = append(curs, s.cursor(i%2 == 1, i+1))
		}
		ps := probes(c.rng, L, 12)
		spots := somePositions(c.rng, L, 6)
		ts, alone := textsAlone(c.rng, 4)
		st := []*dawg.UtfcState{dawg.NewUtfcState(), dawg.NewUtfcState()}
		fed := [][]rune{nil, nil}
		snk := []*byteSink{{limit: -1}, {limit: -1}}
		for i := 0; i < 60 && c.seqBad == 0; i++ {
			switch q := c.rng.Intn(8); {
			case q < 4:
				m := curs[c.rng.Intn(len(curs))]
				if !m.live || c.rng.Intn(6) == 0 {
					text := texts[c.rng.Intn(len(texts))]
					if c.rng.Intn(2) == 0 {
						text = nil
					}
					if !m.start(c, s, spots[c.rng.Intn(len(spots))], text, c.rng.Intn(3)) {
						return
					}
				} else if !m.next(c, k) {
					return
				}
			case q < 7:
				someCall(c, s, k, ps, ts, alone)
			default: // two encoders in turn
				j := c.rng.Intn(2)
				if len(fed[j]) < len(ts[j]) {
					ch := ts[j][len(fed[j])]
					fed[j] = append(fed[j], ch)
					ok := st[j].Follow(ch, snk[j])
					sofar := append([]byte{}, snk[j].b...)
					c.Obs(ok && bytes.HasPrefix(alone[j], sofar), func() []Ev {
						return []Ev{{"op": "kept", "what": "UtfcState", "before": B(alone[j][:min(len(sofar), len(alone[j]))]), "after": B(sofar)}}
					})
				}
			}
		}
		k.check(c)
		sharedKept(c, s, before)
	})
	// many goroutines
	r.suiteRunEvery("many", "TraceSystem", r.pick(120, 2500), 2, r.pick(4, 40), func(c *Ctx) {
		L := smallLex(c.rng)
		for len(L) == 0 {
			L = smallLex(c.rng)
		}
		if c.rng.Intn(3) == 0 {
			L = mediumLex(c.rng)
			for len(L) > 1500 {
				L = L[:1500]
			}
		}
		s := mk(c, L, wAll)
		before := s.sharedFresh()
		ts, alone := textsAlone(c.rng, 6)
		together(c, 6, func(d *Ctx, g int) {
			k := &keeper{}
			ps := probes(d.rng, L, 12)
			for i := 0; i < 25 && len(d.sus) == 0; i++ {
				switch d.rng.Intn(6) {
				case 0:
					p := somePositions(d.rng, L, 3)
					bulkAscending(d, L, s.dict, dawg.NewCompleter(s.dict, s.guide), p[len(p)-1], texts[d.rng.Intn(len(texts))])
				case 1:
					p := somePositions(d.rng, L, 3)
					bulkRanked(d, L, s.dict, dawg.NewRankedCompleter(s.dict, s.rg), p[len(p)-1], texts[d.rng.Intn(len(texts))], true)
				case 2: // keep the keys of a listing
					cp := dawg.NewCompleter(s.dict, s.guide)
					rc := dawg.NewRankedCompleter(s.dict, s.rg)
					cp.Start(s.dict.Root())
					rc.Start(s.dict.Root())
					for j := 0; j < 12; j++ {
						if cp.Next() {
							k.str("Key", cp.Key())
						}
						if rc.Next() {
							k.str("Key (ranked)", rc.Key())
						}
					}
				case 3:
					someCall(d, s, k, ps, ts, alone)
				default:
					someCall(d, s, k, ps, ts, alone)
				}
			}
			k.check(d)
		})
		sharedKept(c, s, before)
		c.r.seen(L.hash(), true)
	})
	// builders at work while others read, and several builds from one automaton
	r.suiteRunEvery("builders", "TraceSystem", r.pick(80, 1500), 2, r.pick(4, 40), func(c *Ctx) {
		L := smallLex(c.rng)
		for len(L) == 0 {
			L = smallLex(c.rng)
		}
		if c.rng.Intn(3) == 0 {
			L = mediumLex(c.rng)
			for len(L) > 1000 {
				L = L[:1000]
			}
		}
		s := mk(c, L, wAll)
		before := s.sharedFresh()
		ts, alone := textsAlone(c.rng, 4)
		together(c, 6, func(d *Ctx, g int) {
			k := &keeper{}
			ps := probes(d.rng, L, 12)
			for i := 0; i < 4 && len(d.sus) == 0; i++ {
				switch g % 3 {
				case 0: // another lexicon
					M := smallLex(d.rng)
					if d.rng.Intn(4) == 0 {
						M = mediumLex(d.rng)
						if len(M) > 600 {
							M = M[:600]
						}
					}
					b := dawg.NewDawgBuilderWithSize(1 + d.rng.Intn(300))
					for _, e := range M {
						insertSomehow(d.rng, b, e.K, e.V)
					}
					t := &Sut{L: M, auto: dawg.NewDawg()}
					b.Finish(t.auto)
					t.complete(wAll)
					for _, e := range M {
						checkFind(d, M, t.dict, e.K)
						checkRank(d, M, t.ixr, e.K)
					}
					bulkAscending(d, M, t.dict, dawg.NewCompleter(t.dict, t.guide), nil, nil)
					bulkRanked(d, M, t.dict, dawg.NewRankedCompleter(t.dict, t.rg), nil, nil, true)
				case 1: // the same automaton again
					t := &Sut{L: L, auto: s.auto}
					t.complete(wAll)
					sharedKept(d, t, before)
				default:
					for j := 0; j < 10; j++ {
						someCall(d, s, k, ps, ts, alone)
					}
				}
			}
			k.check(d)
		})
		sharedKept(c, s, before)
		c.r.seen(L.hash()+1, true)
	})
	// encoders alone, also states kept by each goroutine
	r.suiteRunEvery("encoders", "TraceUtfc", r.pick(60, 1200), 2, r.pick(2, 20), func(c *Ctx) {
		// a state which nobody changes while all copy it
		head := randText(c.rng, c.rng.Intn(4))
		src, hs := dawg.NewUtfcState(), &byteSink{limit: -1}
		for _, ch := range head {
			src.Follow(ch, hs)
		}
		together(c, 8, func(d *Ctx, g int) {
			k := &keeper{}
			for i := 0; i < 30; i++ {
				t := randText(d.rng, 1+d.rng.Intn(8))
				// a follower that stops
				whole := append([]byte{}, dawg.UtfcEncode(str(t))...)
				for _, n := range []int{d.rng.Intn(len(whole) + 1), len(whole) - 1, 0} {
					few := &byteSink{limit: n}
					ok := dawg.UtfcFollow(str(t), few)
					d.Obs(ok == (len(whole) <= n) && bytes.Equal(few.b, whole[:min(n+1, len(whole))]), func() []Ev {
						return []Ev{{"op": "reset"}, {"op": "whole", "cs": R(t), "b": B(whole)},
							{"op": "refuse", "cs": R(t), "n": n, "r": ok, "got": B(few.b)}}
					})
				}
				// going on from the shared state
				full := append([]byte{}, dawg.UtfcEncode(str(head)+str(t))...)
				mine, rest := dawg.NewUtfcState(), &byteSink{b: append([]byte{}, hs.b...), limit: -1}
				if d.rng.Intn(2) == 0 {
					mine.Follow(t[0], &byteSink{limit: -1})
				}
				mine.Copy(src)
				for _, ch := range t {
					mine.Follow(ch, rest)
				}
				d.Obs(bytes.Equal(rest.b, full), func() []Ev {
					return []Ev{{"op": "kept", "what": "copied state", "before": B(full), "after": B(rest.b)}}
				})
				// one that stops in the middle of a character
				mine.Copy(src)
				one := &byteSink{limit: 0}
				ok1 := mine.Follow(t[0], one)
				mine.Clear()
				fst := full[len(hs.b)]
				d.Obs(len(one.b) == 1 && one.b[0] == fst && !ok1, func() []Ev {
					return []Ev{{"op": "kept", "what": "refused character", "before": B([]byte{fst}), "after": B(one.b)},
						{"op": "kept", "what": "result of the refused character", "before": false, "after": ok1}}
				})
				b := dawg.UtfcEncode(str(t))
				k.buf("UtfcEncode", b)
				back, _ := decode(b)
				k.str("UtfcDecode", back)
				d.Obs(back == str(t), func() []Ev { return []Ev{{"op": "round", "cs": R(t), "back": R([]rune(back))}} })
				snk := &byteSink{limit: -1}
				ok := dawg.UtfcFollow(str(t), snk)
				st, s2 := dawg.NewUtfcState(), &byteSink{limit: -1}
				for _, ch := range t {
					st.Follow(ch, s2)
				}
				d.Obs(ok && bytes.Equal(snk.b, b) && bytes.Equal(s2.b, b), func() []Ev {
					return []Ev{{"op": "reset"}, {"op": "whole", "cs": R(t), "b": B(b)}, {"op": "whole", "cs": R(t), "b": B(snk.b)}, {"op": "whole", "cs": R(t), "b": B(s2.b)}}
				})
			}
			k.check(d)
		})
	})
}
