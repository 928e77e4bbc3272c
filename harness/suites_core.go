package main

// Properties of dictionaries, automata, completers and numberings (trace specification TraceSystem).

import (
	"bytes"
	"github.com/deNULL/dawg"
)

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C07"] = checkC07
	checks["C08"] = checkC08
	checks["C09"] = checkC09
}

// coreSuites runs f on small, medium and big lexicons.
func coreSuites(r *Run, small, medium int, big bool, f func(c *Ctx, L Lex, size int)) {
	r.suiteRunEvery("small", "TraceSystem", small, 8, small/60+1, func(c *Ctx) { f(c, smallLex(c.rng), 0) })
	r.suiteRunEvery("medium", "TraceSystem", medium, 8, medium/40+1, func(c *Ctx) { f(c, mediumLex(c.rng), 1) })
	r.suiteRunEvery("long", "TraceSystem", r.pick(24, 200), 8, 1000, func(c *Ctx) {
		c.sampled = false // too long for TLC when there is nothing to see
		f(c, longKeys(c.rng, c.idx), 3)
	})
	r.suiteRunEvery("wide", "TraceSystem", r.pick(16, 200), 8, 1000, func(c *Ctx) { f(c, wideLex(c.rng, 1+c.rng.Intn(6)), 1) })
	if big {
		r.suiteRunEvery("big", "TraceSystem", r.pick(1, 4), 1, 1, func(c *Ctx) { f(c, bigLex(c.rng, 450000), 2) })
	}
}

func nProbes(size int) int { return []int{60, 1500, 400000, 60}[size] }

// ---- C01 ----------------------------------------------------------------

func checkC01(r *Run) {
	vectorSuite(r, func(c *Ctx, L Lex, ps [][]byte) {
		s := mk(c, L, wDict)
		for _, p := range ps {
			checkFind(c, L, s.dict, p)
		}
	})
	coreSuites(r, r.pick(3000, 60000), r.pick(220, 3000), true, func(c *Ctx, L Lex, size int) {
		s := mk(c, L, wDict)
		noteSize(c, s)
		for _, e := range L {
			checkFind(c, L, s.dict, e.K)
		}
		for _, p := range probes(c.rng, L, nProbes(size)) {
			checkFind(c, L, s.dict, p)
		}
	})
	histories(r, r.pick(600, 12000), false)
}

func noteSize(c *Ctx, s *Sut) {
	if n := int64(s.dict.Size()); n > 1<<24 {
		c.r.note("dictionaries_over_16M_units", 1)
	} else if n > 1<<21 {
		c.r.note("dictionaries_over_2M_units", 1)
	} else if n > 4096 {
		c.r.note("dictionaries_over_16_blocks", 1)
	}
}

// ---- C02 ----------------------------------------------------------------

func checkC02(r *Run) {
	vectorSuite(r, func(c *Ctx, L Lex, ps [][]byte) {
		s := mk(c, L, wDict)
		walkAll(c, L, s.dict, 1<<30)
		for _, p := range ps {
			checkFollow(c, L, s.dict, p, c.rng.Intn(4))
		}
	})
	coreSuites(r, r.pick(1500, 30000), r.pick(160, 2400), true, func(c *Ctx, L Lex, size int) {
		s := mk(c, L, wDict)
		noteSize(c, s)
		walkAll(c, L, s.dict, []int{1 << 30, 1 << 30, 150000, 1500}[size])
		for _, p := range probes(c.rng, L, nProbes(size)) {
			checkFollow(c, L, s.dict, p, c.rng.Intn(1000))
		}
		if size == 2 {
			// keys that others continue
			for i, e := range L {
				if i+1 < len(L) && bytes.HasPrefix(L[i+1].K, e.K) {
					if ix, ok := follow(s.dict, e.K); ok {
						lo, hi := L.under(e.K)
						checkNode(c, L, s.dict, e.K, ix, lo, hi)
					}
				}
			}
		}
		// Positions deep in a big one, too, and following a string from them.
		for _, p := range somePositions(c.rng, L, []int{20, 200, 20000, 60}[size]) {
			lo, hi := L.under(p)
			ix, ok := follow(s.dict, p)
			if ok {
				checkNode(c, L, s.dict, p, ix, lo, hi)
			}
			checkFollowFrom(c, L, s.dict, p)
		}
	})
	// blocks that are full but for a unit or two
	r.suiteRunEvery("blocks", "TraceSystem", r.pick(600, 12000), 8, r.pick(600, 12000)/20, func(c *Ctx) {
		L := blockLex(c.rng)
		walkAll(c, L, mk(c, L, wDict).dict, 1<<30)
	})
}

// checkFollowFrom follows a string from an inner position.
func checkFollowFrom(c *Ctx, L Lex, d *dawg.Dictionary, p []byte) {
	ix, ok := follow(d, p)
	if !ok {
		checkFollow(c, L, d, p, 0)
		return
	}
	lo, hi := L.under(p)
	var s []byte
	if hi > lo {
		k := L[lo+c.rng.Intn(hi-lo)].K[len(p):]
		s = append(s, k[:c.rng.Intn(len(k)+1)]...)
	}
	for i := c.rng.Intn(3); i > 0; i-- {
		s = append(s, byte(c.rng.Intn(256)))
	}
	full := append(append([]byte{}, p...), s...)
	m := L.matched(full) - len(p)
	want, _ := follow(d, full[:len(p)+m])
	all := m == len(s)
	var x [4]uint32
	var okk [4]bool
	n := [2]int{len(p), len(p)}
	for i := range x {
		x[i] = ix
	}
	rest := "a"
	if lo, hi := L.under(full); lo < hi {
		rest = string(L[lo+c.rng.Intn(hi-lo)].K[len(full):]) + "a"
	}
	okk[0] = d.FollowString(string(s), &x[0])
	okk[1] = d.FollowStringLen(string(s)+rest, len(s), &x[1])
	okk[2] = d.FollowStringCount(string(s), &x[2], &n[0])
	okk[3] = d.FollowStringLenCount(string(s)+rest, len(s), &x[3], &n[1])
	same := x == [4]uint32{want, want, want, want}
	good := same && okk == [4]bool{all, all, all, all} && n == [2]int{len(p) + m, len(p) + m}
	c.Obs(good, func() []Ev {
		return []Ev{L.windowEv(1, full), {"op": "follow", "d": 1, "s": B(full), "ok": okk[:], "start": 0, "n": n[:], "there": same}}
	})
}

// ---- C05 ----------------------------------------------------------------

func counters(a *dawg.Dawg) Sizes {
	return Sizes{a.NumOfStates(), a.NumOfTransitions(), a.NumOfMergedTransitions(), a.NumOfMergedStates(), a.NumOfMergingStates()}
}
func (s Sizes) ev() Ev {
	return Ev{"states": s.States, "transitions": s.Transitions, "mergedTransitions": s.MergedTransitions, "mergedStates": s.MergedStates, "mergingStates": s.MergingStates}
}

type gTrans struct {
	l  byte
	to uint32
	v  int32
}
type graphState struct {
	id uint32
	tr []gTrans
}

// graphOf reads an automaton through its public accessors.  A state is the first index of its
// group of sibling transitions.
func graphOf(a *dawg.Dawg, limit int) (root uint32, states []graphState, merging []uint32, ok bool) {
	ok = true
	root = a.Child(a.Root())
	if root == 0 {
		return
	}
	at := map[uint32]bool{}
	stack := []uint32{root}
	at[root] = true
	for len(stack) > 0 {
		id := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		st := graphState{id: id}
		for i := id; i != 0; i = a.Sibling(i) {
			if len(st.tr) > 256 {
				return root, states, merging, false
			}
			t := gTrans{l: a.Label(i)}
			if a.IsLeaf(i) {
				t.v = a.Value(i)
			} else {
				t.to = a.Child(i)
				if !at[t.to] {
					at[t.to] = true
					stack = append(stack, t.to)
				}
			}
			st.tr = append(st.tr, t)
		}
		if a.IsMerging(id) {
			merging = append(merging, id)
		}
		states = append(states, st)
		if len(states) > limit {
			return root, states, merging, false
		}
	}
	return
}

func (s graphState) trEv() []Ev {
	r := []Ev{}
	for _, t := range s.tr {
		r = append(r, Ev{"l": int(t.l), "to": int(t.to), "v": t.v})
	}
	return r
}

func checkAutomaton(c *Ctx, L Lex, a *dawg.Dawg) {
	got := counters(a)
	want := sizesOf(L)
	root, states, merging, ok := graphOf(a, want.States*4+1000)
	// (1) small: counters and graph as a whole
	if len(L) <= wholeLimit && keyBytes(L) < 2500 {
		good := ok && got == want && graphGood(L, root, states, merging, want)
		c.Obs(good, func() []Ev {
			ss := []Ev{}
			for _, s := range states {
				ss = append(ss, Ev{"id": int(s.id), "tr": s.trEv()})
			}
			mg := []int{}
			for _, m := range merging {
				mg = append(mg, int(m))
			}
			return []Ev{{"op": "listing", "b": 1, "L": L.json()}, {"op": "finish", "b": 1, "a": 1},
				{"op": "counters", "a": 1, "sizes": got.ev()},
				{"op": "graph", "a": 1, "root": int(root), "states": ss, "merging": mg}}
		})
		return
	}
	// (2) larger: two states alike, numbers against the graph itself, and the graph against the keys
	if !ok {
		c.Obs(false, func() []Ev {
			return []Ev{{"op": "tally", "what": "states reachable", "said": got.States, "counted": len(states)}}
		})
		return
	}
	sig := map[string]int{}
	trans := 0
	for i, s := range states {
		var b []byte
		for j, t := range s.tr {
			b = append(b, t.l, byte(t.to), byte(t.to>>8), byte(t.to>>16), byte(t.to>>24), byte(t.v), byte(t.v>>8), byte(t.v>>16), byte(t.v>>24))
			if j > 0 {
				p := s.tr[j-1].l
				t := t.l
				c.Obs(p < t, func() []Ev { return []Ev{{"op": "ascend", "before": int(p), "now": int(t)}} })
			}
		}
		trans += len(s.tr)
		if o, dup := sig[string(b)]; dup {
			i := i
			c.Obs(false, func() []Ev { return []Ev{{"op": "twostates", "x": states[o].trEv(), "y": states[i].trEv()}} })
		} else {
			sig[string(b)] = i
		}
	}
	if len(states) > 1 {
		c.Obs(true, func() []Ev { return []Ev{{"op": "twostates", "x": states[0].trEv(), "y": states[1].trEv()}} })
	}
	// The keys spelled out by the graph, in order.
	byID := map[uint32]int{}
	for i, s := range states {
		byID[s.id] = i
	}
	pos := 0
	var prev []byte
	bad := false
	emit := func(k []byte, v int32, more bool) {
		good := false
		if pos < len(L) {
			good = more && eqBytes(L[pos].K, k) && L[pos].V == v
		} else {
			good = !more
		}
		i := pos
		kk := append([]byte{}, k...)
		hadPrev := pos > 0
		pk := prev
		c.Obs(good, func() []Ev {
			return []Ev{L.windowAt(1, i-2, i+2), {"op": "succ", "d": 1, "p": []int{}, "text": []int{}, "after": Ev{"some": hadPrev, "k": B(pk)},
				"r": more, "k": B(kk), "v": v, "n": len(kk)}}
		})
		bad = bad || !good
		prev = kk
		pos++
	}
	var rec func(id uint32, k []byte)
	rec = func(id uint32, k []byte) {
		if bad {
			return
		}
		for _, t := range states[byID[id]].tr {
			if t.l == 0 {
				emit(k, t.v, true)
			} else {
				rec(t.to, append(k, t.l))
			}
		}
	}
	if root != 0 {
		rec(root, nil)
	}
	if !bad {
		emit(nil, 0, false)
	}
	// With the graph right and no two states alike, it is the minimal automaton: its sizes are the true ones.
	tally := func(what string, said, counted int) {
		c.Obs(said == counted, func() []Ev {
			return []Ev{{"op": "tally", "what": what, "said": said, "counted": counted}}
		})
	}
	tally("states", got.States, len(states)+1)
	tally("transitions", got.Transitions, trans)
	tree := treeTransitions(L)
	tally("merged transitions", got.MergedTransitions, tree-trans)
	tally("merged states", got.MergedStates, tree+1-(len(states)+1))
	tally("merging states", got.MergingStates, want.MergingStates)
	tally("marked merging states", len(merging), want.MergingStates)
	tally("size", a.Size(), trans+1)
}

func keyBytes(L Lex) int {
	n := 0
	for _, e := range L {
		n += len(e.K)
	}
	return n
}

func treeTransitions(L Lex) int {
	n := len(L)
	var prev []byte
	for _, e := range L {
		i := 0
		for i < len(prev) && i < len(e.K) && prev[i] == e.K[i] {
			i++
		}
		n += len(e.K) - i
		prev = e.K
	}
	return n
}

func graphGood(L Lex, root uint32, states []graphState, merging []uint32, want Sizes) bool {
	if len(L) == 0 {
		return len(states) == 0 && len(merging) == 0
	}
	if len(states)+1 != want.States || len(merging) != want.MergingStates {
		return false
	}
	byID := map[uint32]int{}
	for i, s := range states {
		byID[s.id] = i
		for j := 1; j < len(s.tr); j++ {
			if s.tr[j-1].l >= s.tr[j].l {
				return false
			}
		}
	}
	pos := 0
	ok := true
	var rec func(id uint32, k []byte)
	rec = func(id uint32, k []byte) {
		for _, t := range states[byID[id]].tr {
			if !ok {
				return
			}
			if t.l == 0 {
				if pos >= len(L) || !eqBytes(L[pos].K, k) || L[pos].V != t.v {
					ok = false
				}
				pos++
			} else if len(k) > 5000 {
				ok = false
			} else {
				rec(t.to, append(append([]byte{}, k...), t.l))
			}
		}
	}
	rec(root, nil)
	return ok && pos == len(L)
}

func checkC05(r *Run) {
	vectorSuite(r, func(c *Ctx, L Lex, ps [][]byte) {
		c.r.seen(L.hash(), len(L) >= 2)
		a, _ := buildAuto(L)
		checkAutomaton(c, L, a)
	})
	coreSuites(r, r.pick(4000, 80000), r.pick(300, 5000), false, func(c *Ctx, L Lex, size int) {
		c.r.seen(L.hash(), len(L) >= 2)
		a, _ := buildAuto(L)
		checkAutomaton(c, L, a)
	})
	r.suiteRunEvery("tables", "TraceSystem", r.pick(200, 3000), 8, 10, func(c *Ctx) {
		// other initial table sizes, refused insertions in between
		L := smallLex(c.rng)
		if c.rng.Intn(3) == 0 {
			L = mediumLex(c.rng)
		}
		b := dawg.NewDawgBuilderWithSize(1 + c.rng.Intn(1<<uint(c.rng.Intn(12))))
		for i, e := range L {
			b.InsertKeyValue(e.K, len(e.K), e.V)
			if i > 0 && c.rng.Intn(3) == 0 {
				o := L[c.rng.Intn(i)]
				b.InsertKeyValue(o.K, len(o.K), o.V+1)
			}
		}
		a := dawg.NewDawg()
		b.Finish(a)
		c.r.seen(L.hash(), len(L) >= 2)
		checkAutomaton(c, L, a)
	})
	r.suiteRunEvery("big", "TraceSystem", r.pick(3, 9), 3, 1, func(c *Ctx) {
		L := bigLex(c.rng, 60000)
		switch c.idx % 3 {
		case 1:
			L = genLex(c.rng, kComb, 200000)
		case 2:
			L = mergingLex(c.rng, 90000) // more than 2^16 merging states
		}
		a, _ := buildAuto(L)
		checkAutomaton(c, L, a)
	})
}

// ---- C06, C07 -----------------------------------------------------------

var texts = [][]byte{{}, {'p', 'r', 'e'}, {0}, {255, 1}, {'x', 0, 'y'}}

func completions(r *Run, ranked bool) {
	list := func(c *Ctx, s *Sut, cp completer, p []byte, ordered bool) {
		text := texts[c.rng.Intn(len(texts))]
		if c.rng.Intn(3) == 0 {
			text = p
		}
		if ranked {
			bulkRanked(c, s.L, s.dict, cp, p, text, ordered)
		} else {
			bulkAscending(c, s.L, s.dict, cp, p, text)
		}
	}
	what := wGuide
	if ranked {
		what = wRanked
	}
	mkc := func(s *Sut) completer {
		if ranked {
			return dawg.NewRankedCompleter(s.dict, s.rg)
		}
		return dawg.NewCompleter(s.dict, s.guide)
	}
	vectorSuite(r, func(c *Ctx, L Lex, ps [][]byte) {
		s := mk(c, L, what)
		cp := mkc(s)
		for _, p := range allPositions(L, 1000) {
			list(c, s, cp, p, true)
			named(c, s, p, ranked)
		}
		session(c, s, mkc, ranked)
	})
	coreSuites(r, r.pick(2500, 50000), r.pick(200, 3000), true, func(c *Ctx, L Lex, size int) {
		s := mk(c, L, what)
		noteSize(c, s)
		cp := mkc(s)
		list(c, s, cp, nil, true)
		for _, p := range somePositions(c.rng, L, []int{20, 60, 300, 30}[size]) {
			if len(c.sus) > 0 {
				return
			}
			if size == 2 && len(p) < 2 && len(p) > 0 {
				continue
			}
			if size != 2 && c.rng.Intn(2) == 0 { // left in the middle, wherever that is
				q := somePositions(c.rng, L, 2)
				if ix, ok := follow(s.dict, q[len(q)-1]); ok {
					cp.Start(ix)
					for i := c.rng.Intn(7); i > 0; i-- {
						cp.Next()
					}
				}
			}
			list(c, s, cp, p, true)
			named(c, s, p, ranked)
			if size != 2 && c.rng.Intn(4) == 0 {
				list(c, s, mkc(s), p, true)
			}
		}
		if size == 0 {
			session(c, s, mkc, ranked)
		}
	})
	if ranked {
		r.suiteRunEvery("orders", "TraceSystem", r.pick(800, 15000), 8, 20, func(c *Ctx) {
			L := smallLex(c.rng)
			if c.rng.Intn(10) == 0 {
				L = mediumLex(c.rng)
			}
			s := mk(c, L, wDict)
			kind := c.rng.Intn(4)
			salt := int32(c.rng.Intn(1 << 20))
			s.rg = dawg.BuildRankedGuideCmp(s.auto, s.dict, func(a, b int32) bool {
				switch kind {
				case 0:
					return a > b
				case 1:
					return a^salt < b^salt
				case 2:
					return a%7 < b%7
				default:
					return false
				}
			})
			cp := mkc(s)
			for _, p := range somePositions(c.rng, L, 12) {
				list(c, s, cp, p, false)
			}
		})
	}
}

// named looks at the labels the guide has for a position.
func named(c *Ctx, s *Sut, p []byte, ranked bool) {
	if ranked {
		checkBest(c, s.L, s.dict, s.rg, p)
	} else {
		checkGuide(c, s.L, s.dict, s.guide, p)
	}
}

// session mixes starts, restarts and nexts of a few cursors over one dictionary; the trace keeps all of it.
func session(c *Ctx, s *Sut, mkc func(*Sut) completer, ranked bool) {
	if len(s.L) > 40 {
		return
	}
	c.Seq(true, s.L.windowAt(1, 0, len(s.L)))
	type cur struct {
		cp   completer
		live bool
		left Lex
		text []byte
	}
	curs := make([]*cur, 2)
	kind := "ascending"
	if ranked {
		kind = "ranked"
	}
	ps := somePositions(c.rng, s.L, 8)
	for step := 0; step < 24; step++ {
		i := c.rng.Intn(len(curs))
		if curs[i] == nil {
			curs[i] = &cur{cp: mkc(s)}
		}
		cu := curs[i]
		if !cu.live || c.rng.Intn(6) == 0 {
			p := ps[c.rng.Intn(len(ps))]
			ix, ok := follow(s.dict, p)
			if !ok {
				checkFollow(c, s.L, s.dict, p, 0)
				return
			}
			text := texts[c.rng.Intn(len(texts))]
			switch c.rng.Intn(3) {
			case 0:
				text = nil
				cu.cp.Start(ix)
			case 1:
				cu.cp.StartString(ix, string(text))
			case 2:
				cu.cp.StartStringLen(ix, string(text)+"zz", len(text))
			}
			lo, hi := s.L.under(p)
			cu.left = nil
			for _, e := range s.L[lo:hi] {
				cu.left = append(cu.left, Entry{append(append([]byte{}, text...), e.K[len(p):]...), e.V})
			}
			cu.live = true
			c.Seq(true, Ev{"op": "start", "c": i + 1, "d": 1, "p": B(p), "text": B(text), "kind": kind})
			continue
		}
		more := cu.cp.Next()
		ev := Ev{"op": "next", "c": i + 1, "r": more, "k": []int{}, "v": 0, "n": 0}
		good := true
		if !more {
			good = len(cu.left) == 0
		} else {
			k, v, n := cu.cp.Key(), cu.cp.Value(), cu.cp.Length()
			ev["k"], ev["v"], ev["n"] = S(k), v, n
			good = false
			for j, e := range cu.left {
				if string(e.K) == k && e.V == v && n == len(k) {
					good = ranked || j == 0
					for _, o := range cu.left {
						if ranked && o.V > v {
							good = false
						}
					}
					cu.left = append(append(Lex{}, cu.left[:j]...), cu.left[j+1:]...)
					break
				}
			}
		}
		c.Seq(good, ev)
		if !good {
			return
		}
	}
}

func checkC06(r *Run) { completions(r, false) }
func checkC07(r *Run) { completions(r, true) }

// ---- C08, C09 -----------------------------------------------------------

func oddNumbers(c *Ctx, n int) []uint32 {
	return []uint32{uint32(n), uint32(n + 1), uint32(n + 2), 2*uint32(n) + 1, 1 << 16, 0x7fffffff, 0x80000000, 0xfffffffd, 0xfffffffe, 0xffffffff, uint32(n) + uint32(c.rng.Intn(1000))}
}

func checkC08(r *Run) {
	do := func(c *Ctx, s *Sut, ps [][]byte, all bool) {
		L := s.L
		checkTotal(c, L, s.ixr, s.idx)
		for i := range L {
			if all || c.rng.Intn(8) == 0 {
				checkKeyAt(c, L, s.ixr, uint32(i))
				checkRank(c, L, s.ixr, L[i].K)
			}
		}
		for _, i := range oddNumbers(c, len(L)) {
			if int64(i) >= int64(len(L)) {
				checkKeyAt(c, L, s.ixr, i)
			}
		}
		for _, p := range ps {
			checkRank(c, L, s.ixr, p)
		}
		for _, p := range somePositions(c.rng, L, 12+len(L)/8) {
			checkCount(c, L, s.dict, s.idx, p)
		}
	}
	vectorSuite(r, func(c *Ctx, L Lex, ps [][]byte) { do(c, mk(c, L, wIndex), ps, true) })
	coreSuites(r, r.pick(3000, 60000), r.pick(200, 3000), true, func(c *Ctx, L Lex, size int) {
		s := mk(c, L, wIndex)
		noteSize(c, s)
		do(c, s, probes(c.rng, L, nProbes(size)/4), size != 2)
	})
	r.suiteRunEvery("vast", "TraceSystem", r.pick(2, 8), 2, 1, func(c *Ctx) { vast(c, 10+c.rng.Intn(3), 6, 3000) })
}

func checkC09(r *Run) {
	do := func(c *Ctx, s *Sut, ps [][]byte, all bool) {
		L := s.L
		checkTotal(c, L, s.rixr, s.ridx)
		for i := range L {
			if all || c.rng.Intn(8) == 0 {
				checkNumAt(c, L, s.rixr, uint32(i))
				checkNumOf(c, L, s.rixr, L[i].K)
			}
		}
		for _, i := range oddNumbers(c, len(L)) {
			if int64(i) >= int64(len(L)) {
				checkNumAt(c, L, s.rixr, i)
			}
		}
		for _, p := range ps {
			checkNumOf(c, L, s.rixr, p)
		}
		for _, p := range somePositions(c.rng, L, 12+len(L)/8) {
			checkCount(c, L, s.dict, s.ridx, p)
		}
	}
	vectorSuite(r, func(c *Ctx, L Lex, ps [][]byte) { do(c, mk(c, L, wRIndex), ps, true) })
	coreSuites(r, r.pick(3000, 60000), r.pick(200, 3000), true, func(c *Ctx, L Lex, size int) {
		s := mk(c, L, wRIndex)
		noteSize(c, s)
		do(c, s, probes(c.rng, L, nProbes(size)/4), size != 2)
	})
	r.suiteRunEvery("orders", "TraceSystem", r.pick(400, 8000), 8, 20, func(c *Ctx) {
		L := smallLex(c.rng)
		s := mk(c, L, wDict)
		kind := c.rng.Intn(3)
		s.rg = dawg.BuildRankedGuideCmp(s.auto, s.dict, func(a, b int32) bool {
			return kind == 0 && a > b || kind == 1 && a%5 < b%5
		})
		s.ridx = dawg.BuildIndex(s.dict, s.rg)
		s.rixr = dawg.NewIndexer(s.dict, s.rg, s.ridx)
		do(c, s, probes(c.rng, L, 30), true)
	})
}
