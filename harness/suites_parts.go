package main

// Many objects at once (specification Parts, trace specification TraceParts).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"

	"github.com/deNULL/dawg"
)

func init() { checks["C21"] = checkC21 }

// pobj is an object the program holds and what it should hold.
type pobj struct {
	kind string // auto dict guide ranked index
	id   int
	a    *dawg.Dawg
	p    part
	L    Lex
	full bool // an index made through a guide
}

func (o *pobj) key() string { return contentKey(o.kind, o.L, o.full) }
func contentKey(kind string, L Lex, full bool) string {
	if kind == "auto" {
		kind = "dict"
	}
	return fmt.Sprint(kind, L.hash(), len(L), full)
}

type pcursor struct {
	id   int
	kind string
	d, g *pobj
	cp   completer
	left Lex
}
type pair struct{ d, g *pobj }
type triple struct{ d, g, x *pobj }

type pworld struct {
	c       *Ctx
	b       []*dawg.DawgBuilder
	slots   map[string]*pobj
	all     []*pobj
	files   map[int][]byte
	fof     map[int]*pobj // what was saved there: kind and contents
	refs    map[string]string
	cps     map[pair]completer
	ixs     map[triple]*dawg.Indexer
	curs    []*pcursor
	ids     int
	strings [][]byte // to look up
	quiet   bool     // large: no events unless something is wrong
}

func newWorld(c *Ctx) *pworld {
	w := &pworld{c: c, slots: map[string]*pobj{}, files: map[int][]byte{}, fof: map[int]*pobj{}, refs: map[string]string{},
		cps: map[pair]completer{}, ixs: map[triple]*dawg.Indexer{}}
	w.b = []*dawg.DawgBuilder{dawg.NewDawgBuilder(), dawg.NewDawgBuilderWithSize(1 + c.rng.Intn(9))}
	return w
}

func (w *pworld) seq(ok bool, e Ev) bool {
	w.c.Seq(ok, e)
	return ok
}

// at gives the object of a slot; fresh: a new one takes the place, and the old one stays in the program.
func (w *pworld) at(kind string, slot int, fresh bool) *pobj {
	n := fmt.Sprint(kind, slot)
	o := w.slots[n]
	if o != nil && !fresh {
		return o
	}
	w.ids++
	o = &pobj{kind: kind, id: w.ids}
	if kind == "auto" {
		o.a = dawg.NewDawg()
	}
	w.slots[n] = o
	return o
}
func (w *pworld) keep(o *pobj) {
	for _, x := range w.all {
		if x == o {
			return
		}
	}
	w.all = append(w.all, o)
	if len(w.all) > 14 { // drop one that is not in use any more
		for i, x := range w.all {
			used := false
			for _, s := range w.slots {
				used = used || s == x
			}
			for _, q := range w.curs {
				used = used || q.d == x || q.g == x
			}
			if !used {
				w.all = append(w.all[:i:i], w.all[i+1:]...)
				break
			}
		}
	}
}

// changed: listings through this object are over.
func (w *pworld) changed(o *pobj, L Lex, full bool) {
	o.L, o.full = L, full
	w.keep(o)
	var on []*pcursor
	for _, q := range w.curs {
		if q.d != o && q.g != o {
			on = append(on, q)
		}
	}
	w.curs = on
}

func has(kind string, L Lex, full bool) interface{} {
	if kind == "index" {
		return Ev{"of": L.json(), "full": full}
	}
	return L.json()
}

// ref notes what a fresh object of this content is saved as.
// numbersOf: what an automaton says about itself.
func numbersOf(a *dawg.Dawg) string {
	return fmt.Sprint(a.Size(), a.NumOfStates(), a.NumOfTransitions(), a.NumOfMergedStates(), a.NumOfMergingStates(), a.NumOfMergedTransitions())
}

func (w *pworld) ref(kind string, L Lex, full bool) string {
	k := contentKey(kind, L, full)
	if d, ok := w.refs[k]; ok {
		return d
	}
	a := freshAuto(L)
	if len(L) > 0 {
		w.refs[contentKey("numbers", L, false)] = numbersOf(a)
		w.seq(true, Ev{"op": "ref", "kind": "numbers", "has": L.json(), "dig": numbersOf(a)})
	}
	f := mkFamilyOf(L, a)
	for i, p := range []part{f.dict, f.guide, f.rg, f.idx, dawg.BuildIndex(f.dict, dawg.NewGuide())} {
		kd, fl := partKinds[i], i == 3 && len(L) > 0
		k2 := contentKey(kd, L, fl)
		if _, ok := w.refs[k2]; ok {
			continue
		}
		w.refs[k2] = look(kd, p).dig
		w.seq(true, Ev{"op": "ref", "kind": kd, "has": has(kd, L, fl), "dig": w.refs[k2]})
	}
	return w.refs[k]
}

// ---- calls; each returns false when something is wrong --------------------

func (w *pworld) refill(slot int, L Lex) bool {
	o := w.at("auto", slot, w.c.rng.Intn(6) == 0)
	b := w.b[w.c.rng.Intn(2)]
	for _, e := range L {
		b.InsertKeyValue(e.K, len(e.K), e.V)
	}
	b.Finish(o.a)
	w.changed(o, L, false)
	return w.seq(true, Ev{"op": "refill", "a": o.id, "lex": L.json()})
}
func (w *pworld) clearAuto(slot int) bool {
	o := w.slots[fmt.Sprint("auto", slot)]
	o.a.Clear()
	w.changed(o, nil, false)
	now, fresh := numbersOf(o.a), numbersOf(dawg.NewDawg())
	return w.seq(now == fresh, Ev{"op": "clearauto", "a": o.id, "numbers": now, "new": fresh})
}
func (w *pworld) build(a, d int) bool {
	ao := w.slots[fmt.Sprint("auto", a)]
	o := w.at("dict", d, w.c.rng.Intn(2) == 0)
	ok := true
	if o.p == nil {
		dict := ao.a.Build()
		ok = dict != nil
		o.p = dict
	} else {
		ok = dawg.NewDictionaryBuilder(ao.a, o.p.(*dawg.Dictionary)).BuildDictionary()
	}
	w.changed(o, ao.L, false)
	return w.seq(ok, Ev{"op": "build", "a": ao.id, "d": o.id, "ok": ok})
}
func (w *pworld) guide(a, d, g int) bool {
	ao, do := w.slots[fmt.Sprint("auto", a)], w.slots[fmt.Sprint("dict", d)]
	o := w.at("guide", g, w.c.rng.Intn(2) == 0)
	ok := true
	if o.p == nil {
		x := dawg.BuildGuide(ao.a, do.p.(*dawg.Dictionary))
		ok = x != nil
		o.p = x
	} else {
		ok = dawg.NewGuideBuilder(ao.a, do.p.(*dawg.Dictionary), o.p.(*dawg.Guide)).Build()
	}
	w.changed(o, do.L, false)
	return w.seq(ok, Ev{"op": "guide", "a": ao.id, "d": do.id, "g": o.id, "ok": ok})
}
func (w *pworld) rank(a, d, g int) bool {
	ao, do := w.slots[fmt.Sprint("auto", a)], w.slots[fmt.Sprint("dict", d)]
	o := w.at("ranked", g, true)
	x := dawg.BuildRankedGuide(ao.a, do.p.(*dawg.Dictionary))
	o.p = x
	w.changed(o, do.L, false)
	return w.seq(x != nil, Ev{"op": "rank", "a": ao.id, "d": do.id, "g": o.id, "ok": x != nil})
}
func (w *pworld) index(kind string, d, g, x int) bool {
	do, g0 := w.slots[fmt.Sprint("dict", d)], w.slots[fmt.Sprint(kind, g)]
	o := w.at("index", x, w.c.rng.Intn(2) == 0)
	ok := true
	if o.p == nil {
		y := dawg.BuildIndex(do.p.(*dawg.Dictionary), g0.p.(dawg.SomeGuide))
		ok = y != nil
		o.p = y
	} else {
		ok = dawg.NewIndexBuilder(do.p.(*dawg.Dictionary), g0.p.(dawg.SomeGuide), o.p.(*dawg.Index)).Build()
	}
	w.changed(o, do.L, len(do.L) > 0 && len(g0.L) > 0)
	return w.seq(ok, Ev{"op": "index", "kind": kind, "d": do.id, "g": g0.id, "x": o.id, "ok": ok})
}
func (w *pworld) newGuide(kind string, g int) bool {
	o := w.at(kind, g, true)
	if kind == "guide" {
		o.p = dawg.NewGuide()
	} else {
		o.p = dawg.NewRankedGuide()
	}
	w.changed(o, nil, false)
	return w.seq(true, Ev{"op": "new", "kind": kind, "g": o.id})
}
func (w *pworld) cleared(kind string, g int) bool {
	o := w.slots[fmt.Sprint(kind, g)]
	o.p.(interface{ Clear() }).Clear()
	w.changed(o, nil, false)
	return w.seq(true, Ev{"op": "cleared", "kind": kind, "g": o.id})
}
func (w *pworld) save(kind string, i, f int) bool {
	o := w.slots[fmt.Sprint(kind, i)]
	var b bytes.Buffer
	ok := o.p.Write(&b)
	w.files[f] = append([]byte{}, b.Bytes()...)
	w.fof[f] = &pobj{kind: kind, L: o.L, full: o.full}
	return w.seq(ok, Ev{"op": "save", "kind": kind, "i": o.id, "f": f, "ok": ok})
}
func (w *pworld) load(kind string, i, f int, whole bool) bool {
	o := w.at(kind, i, whole && w.c.rng.Intn(3) == 0)
	data := append([]byte{}, w.files[f]...)
	cut := 0
	if !whole {
		cut = 1 + w.c.rng.Intn(min(len(data), 600))
		data = data[:len(data)-cut]
	}
	var ok bool
	ix := map[string]int{"dict": 0, "guide": 1, "ranked": 2, "index": 3}[kind]
	if o.p == nil {
		p := readNew(ix, bytes.NewReader(data))
		ok = p != nil
		if ok {
			o.p = p
		}
	} else {
		ok = o.p.Read(bytes.NewReader(data))
	}
	for i := range data { // the object must not live in the reader's buffer
		data[i] = 0xaa
	}
	if ok {
		w.changed(o, w.fof[f].L, w.fof[f].full)
	}
	return w.seq(ok == whole, Ev{"op": "load", "kind": kind, "i": o.id, "f": f, "ok": ok, "cut": cut})
}

func (w *pworld) completer(d, g *pobj) completer {
	k := pair{d, g}
	if cp := w.cps[k]; cp != nil && w.c.rng.Intn(4) > 0 {
		return cp
	}
	var cp completer
	if g.kind == "guide" {
		cp = dawg.NewCompleter(d.p.(*dawg.Dictionary), g.p.(*dawg.Guide))
	} else {
		cp = dawg.NewRankedCompleter(d.p.(*dawg.Dictionary), g.p.(*dawg.RankedGuide))
	}
	w.cps[k] = cp
	return cp
}
func (w *pworld) begin(d, g *pobj) bool {
	w.ids++
	q := &pcursor{id: w.ids, kind: g.kind, d: d, g: g, cp: w.completer(d, g), left: d.L}
	delete(w.cps, pair{d, g}) // this one is busy now
	q.cp.Start(d.p.(*dawg.Dictionary).Root())
	if len(g.L) == 0 {
		q.left = nil
	}
	w.curs = append(w.curs, q)
	return w.seq(true, Ev{"op": "begin", "c": q.id, "kind": g.kind, "d": d.id, "g": g.id})
}
func (w *pworld) goOn(q *pcursor) bool {
	r := q.cp.Next()
	if !r {
		return w.seq(len(q.left) == 0, Ev{"op": "goon", "c": q.id, "r": false, "k": []int{}, "v": 0, "n": 0})
	}
	k, v, n := []byte(q.cp.Key()), q.cp.Value(), q.cp.Length()
	at := -1
	for i, e := range q.left {
		if eqBytes(e.K, k) && e.V == v && (q.kind == "ranked" || i == 0) {
			at = i
		}
	}
	good := at >= 0 && n == len(k)
	if good && q.kind == "ranked" {
		for _, e := range q.left {
			good = good && e.V <= v
		}
	}
	if good {
		q.left = append(append(Lex{}, q.left[:at]...), q.left[at+1:]...)
	}
	return w.seq(good, Ev{"op": "goon", "c": q.id, "r": true, "k": B(k), "v": v, "n": n})
}

// ---- looking at everything -------------------------------------------------

func (w *pworld) look() bool {
	for _, o := range w.all {
		w.ref(o.kind, o.L, o.full)
	}
	var es []Ev
	good := true
	for _, o := range w.all {
		var dig string
		if o.kind == "auto" {
			d := o.a.Build()
			dig = "not built"
			if d != nil {
				dig = look("dict", d).dig
			}
		} else {
			k := look(o.kind, o.p)
			dig = k.dig
			if !k.sound() {
				dig = "wrong size"
			}
		}
		good = good && dig == w.refs[o.key()]
		e := Ev{"kind": o.kind, "id": o.id, "dig": dig, "numbers": ""}
		if o.kind == "auto" {
			z := numbersOf(o.a)
			e["numbers"] = z
			good = good && (len(o.L) == 0 || z == w.refs[contentKey("numbers", o.L, false)])
		}
		es = append(es, e)
	}
	return w.seq(good, Ev{"op": "look", "objs": es})
}

func (w *pworld) leads(d, g *pobj) bool {
	return len(g.L) == 0 || sameLex(g.L, d.L)
}
func sameLex(a, b Lex) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) > 0 && &a[0] == &b[0] {
		return true
	}
	for i := range a {
		if a[i].V != b[i].V || !eqBytes(a[i].K, b[i].K) {
			return false
		}
	}
	return true
}

func (w *pworld) ask() bool {
	var dicts, guides, inds []*pobj
	for _, o := range w.all {
		switch o.kind {
		case "dict":
			dicts = append(dicts, o)
		case "guide", "ranked":
			guides = append(guides, o)
		case "index":
			inds = append(inds, o)
		}
	}
	for _, d := range dicts {
		dict := d.p.(*dawg.Dictionary)
		var ks []Ev
		good := true
		for _, k := range w.strings {
			r := findAll(dict, k, nil)
			good = good && r.ok(d.L.find(k))
			ks = append(ks, Ev{"k": B(k), "v": r.val})
		}
		if !w.seq(good, Ev{"op": "finds", "d": d.id, "keys": ks}) {
			return false
		}
		for _, g := range guides {
			if !w.leads(d, g) || w.c.rng.Intn(3) == 0 {
				continue
			}
			if !w.list(d, g) {
				return false
			}
			for _, x := range inds {
				if sameLex(x.L, d.L) && (len(g.L) == 0 || x.full) && !w.nums(d, g, x) {
					return false
				}
			}
		}
	}
	return true
}

func (w *pworld) list(d, g *pobj) bool {
	cp := w.completer(d, g)
	cp.Start(d.p.(*dawg.Dictionary).Root())
	want := d.L
	if len(g.L) == 0 {
		want = nil
	}
	out, ended := listing(cp, len(want)+2)
	good := ended && len(out) == len(want)
	var es []Ev
	for i, o := range out {
		es = append(es, Ev{"k": B(o.k), "v": o.v, "n": o.n})
		good = good && o.n == len(o.k)
		if g.kind == "guide" {
			good = good && i < len(want) && eqBytes(o.k, want[i].K) && o.v == want[i].V
		} else if i > 0 {
			good = good && o.v <= out[i-1].v
		}
	}
	if good && g.kind == "ranked" {
		s := append([]listed{}, out...)
		sort.Slice(s, func(i, j int) bool { return bytes.Compare(s[i].k, s[j].k) < 0 })
		for i := range s {
			good = good && eqBytes(s[i].k, want[i].K) && s[i].v == want[i].V
		}
	}
	if es == nil {
		es = []Ev{}
	}
	return w.seq(good, Ev{"op": "list", "d": d.id, "g": g.id, "kind": g.kind, "out": es, "ended": ended})
}

func (w *pworld) nums(d, g, x *pobj) bool {
	k3 := triple{d, g, x}
	ix := w.ixs[k3]
	if ix == nil || w.c.rng.Intn(4) == 0 {
		ix = dawg.NewIndexer(d.p.(*dawg.Dictionary), g.p.(dawg.SomeGuide), x.p.(*dawg.Index))
		w.ixs[k3] = ix
	}
	want := d.L
	if len(g.L) == 0 {
		want = nil
	}
	good := true
	ks := []Ev{}
	taken := map[int]bool{}
	for _, k := range w.strings {
		n := num(ix.StringToIndex(string(k)))
		e := Ev{"k": B(k), "n": n, "some": false, "back": []int{}}
		if n >= 0 {
			b := ix.IndexToBytes(uint32(n))
			e["some"], e["back"] = b != nil, B(b)
			good = good && b != nil && eqBytes(b, k) && n < len(want) && want.find(k) >= 0 && !taken[n]
			taken[n] = true
			if g.kind == "guide" {
				good = good && n == want.rank(k)
			}
		} else {
			good = good && n == -1 && want.find(k) < 0
		}
		ks = append(ks, e)
	}
	be := []Ev{}
	for _, i := range []int{len(want), len(want) + 1, 1 << 20} {
		b := ix.IndexToBytes(uint32(i))
		be = append(be, Ev{"i": i, "some": b != nil})
		good = good && b == nil
	}
	total := 0
	if x.full {
		total = len(x.L)
	}
	got := int(ix.TotalCount())
	return w.seq(good && got == total, Ev{"op": "nums", "d": d.id, "g": g.id, "x": x.id, "kind": g.kind, "total": got, "keys": ks, "beyond": be})
}

// ---- suites ----------------------------------------------------------------

type partCall struct {
	Op   string `json:"op"`
	A    int    `json:"a"`
	D    int    `json:"d"`
	G    int    `json:"g"`
	X    int    `json:"x"`
	I    int    `json:"i"`
	F    int    `json:"f"`
	Kind string `json:"kind"`
	Ok   bool   `json:"ok"`
	Lex  []vKV  `json:"lex"`
}

func (w *pworld) do(x partCall, L Lex) bool {
	switch x.Op {
	case "refill":
		return w.refill(x.A, L)
	case "clearauto":
		return w.clearAuto(x.A)
	case "build":
		return w.build(x.A, x.D)
	case "guide":
		return w.guide(x.A, x.D, x.G)
	case "rank":
		return w.rank(x.A, x.D, x.G)
	case "index":
		return w.index(x.Kind, x.D, x.G, x.X)
	case "cleared":
		return w.cleared(x.Kind, x.G)
	case "save":
		return w.save(x.Kind, x.I, x.F)
	case "load":
		return w.load(x.Kind, x.I, x.F, x.Ok)
	case "begin":
		return w.begin(w.slots[fmt.Sprint("dict", x.D)], w.slots[fmt.Sprint(x.Kind, x.G)])
	case "goon": // which key comes is the code's to say
		return len(w.curs) == 0 || w.goOn(w.curs[len(w.curs)-1])
	}
	die("unknown call %s", x.Op)
	return false
}

func checkC21(r *Run) {
	for _, name := range []string{"parts", "partsc", "parts3"} {
		if extra[name] == "" {
			continue
		}
		lines := readLines(extra[name])
		r.note("spec_behaviours_replayed", int64(len(lines)))
		r.suiteRunEvery("spec"+name, "TraceParts", len(lines), 8, len(lines)/80+1, func(c *Ctx) {
			var h struct{ Calls []partCall }
			if err := json.Unmarshal(lines[c.idx], &h); err != nil {
				die("bad behaviour: %v", err)
			}
			bm := byteMaps[c.rng.Intn(len(byteMaps))]
			vm := valMaps[c.rng.Intn(2)] // 0 below 1
			w := newWorld(c)
			for _, s := range [][]int{{}, {1}, {1, 1}, {2}, {2, 1}, {3}} {
				k := []byte{}
				for _, b := range s {
					k = append(k, bm[b])
				}
				w.strings = append(w.strings, k)
			}
			// as in GInit
			w.refill(1, nil)
			w.newGuide("guide", 1)
			w.newGuide("guide", 2)
			w.newGuide("ranked", 1)
			lex := func(x partCall) Lex {
				var L Lex
				for _, e := range x.Lex {
					k := make([]byte, len(e.K))
					for i, s := range e.K {
						k[i] = bm[s]
					}
					L = append(L, Entry{k, vm[e.V]})
				}
				return L
			}
			for i, x := range h.Calls {
				if !w.do(x, lex(x)) {
					return
				}
				last := i == len(h.Calls)-1
				if (last || c.rng.Intn(3) == 0) && !(w.look() && w.ask()) {
					return
				}
			}
			c.r.seen(hashBytes(lines[c.idx]), len(h.Calls) > 1)
		})
	}
	r.suiteRunEvery("walks", "TraceParts", r.pick(4000, 80000), 8, r.pick(4000, 80000)/60, func(c *Ctx) { partsWalk(c, false) })
	r.suiteRunEvery("large", "TraceParts", r.pick(80, 1200), 8, 100000, func(c *Ctx) {
		c.sampled = false
		partsWalk(c, true)
	})
}

// partsWalk makes calls at random on up to two automata, three dictionaries, guides and indices.
func partsWalk(c *Ctx, large bool) {
	w := newWorld(c)
	alpha := pickAlphabet(c.rng, 3)
	var pool []Lex
	for i := 0; i < 4; i++ {
		var L Lex
		switch c.rng.Intn(6) {
		case 0:
		case 1:
			if len(pool) > 0 && len(pool[0]) > 0 { // other values
				for j, e := range pool[0] {
					L = append(L, Entry{e.K, e.V/2 + int32(j&1)})
				}
				break
			}
			fallthrough
		default:
			if large && c.rng.Intn(2) == 0 {
				L = mediumLex(c.rng)
			} else {
				var es []Entry
				for j := c.rng.Intn(9); j >= 0; j-- {
					es = append(es, Entry{randKey(c.rng, alpha, 3), int32(c.rng.Intn(4))})
				}
				L = normal(es)
			}
		}
		pool = append(pool, L)
	}
	n := 12
	for _, L := range pool {
		w.strings = append(w.strings, probes(c.rng, L, n)...)
		for i := range L {
			if i < 6 {
				w.strings = append(w.strings, L[c.rng.Intn(len(L))].K)
			}
		}
	}
	w.strings = uniqueStrings(w.strings)
	w.refill(1, pool[0])
	w.newGuide("guide", 1)
	w.newGuide("ranked", 1)
	if !w.build(1, 1) {
		return
	}
	slot := func(kind string) (int, *pobj) {
		i := 1 + c.rng.Intn(3)
		return i, w.slots[fmt.Sprint(kind, i)]
	}
	steps := 15 + c.rng.Intn(40)
	if large {
		steps = 10 + c.rng.Intn(15)
	}
	kinds := []string{"dict", "guide", "ranked", "index"}
	for i := 0; i < steps; i++ {
		ok := true
		ai := 1 + c.rng.Intn(2)
		ao := w.slots[fmt.Sprint("auto", ai)]
		di, do := slot("dict")
		gi, g0 := slot("guide")
		ri, r0 := slot("ranked")
		switch q := c.rng.Intn(30); {
		case q < 4:
			ok = w.refill(ai, pool[c.rng.Intn(len(pool))])
		case q < 5 && ao != nil:
			ok = w.clearAuto(ai)
		case q < 9 && ao != nil:
			ok = w.build(ai, di)
		case q < 13 && ao != nil && do != nil && sameLex(ao.L, do.L):
			ok = w.guide(ai, di, gi)
		case q < 15 && ao != nil && do != nil && sameLex(ao.L, do.L):
			ok = w.rank(ai, di, ri)
		case q < 17 && do != nil && g0 != nil && w.leads(do, g0):
			ok = w.index("guide", di, gi, 1+c.rng.Intn(2))
		case q < 18 && do != nil && r0 != nil && w.leads(do, r0):
			ok = w.index("ranked", di, ri, 1+c.rng.Intn(2))
		case q < 19 && g0 != nil:
			ok = w.cleared("guide", gi)
		case q < 20 && r0 != nil:
			ok = w.cleared("ranked", ri)
		case q < 23:
			k := kinds[c.rng.Intn(4)]
			if n, o := slot(k); o != nil {
				ok = w.save(k, n, 1+c.rng.Intn(4))
			}
		case q < 26:
			f := 1 + c.rng.Intn(4)
			if o := w.fof[f]; o != nil {
				i, t := slot(o.kind)
				ok = w.load(o.kind, i, f, t == nil || c.rng.Intn(4) > 0)
			}
		case q < 27 && do != nil && g0 != nil && w.leads(do, g0) && len(w.curs) < 4:
			ok = w.begin(do, g0)
		case q < 28 && do != nil && r0 != nil && w.leads(do, r0) && len(w.curs) < 4:
			ok = w.begin(do, r0)
		}
		for _, q := range w.curs {
			if ok && c.rng.Intn(2) == 0 {
				ok = w.goOn(q)
			}
		}
		if ok && (c.rng.Intn(4) == 0 || i == steps-1) {
			ok = w.look() && w.ask()
		}
		if !ok {
			return
		}
	}
	for _, q := range w.curs {
		for n := len(q.left) + 1; n >= 0; n-- {
			if !w.goOn(q) {
				return
			}
		}
	}
	c.r.seen(uint64(caseSeed(c.r.seed, c.suite, c.idx)), true)
}

func uniqueStrings(ks [][]byte) [][]byte {
	seen := map[string]bool{}
	var out [][]byte
	for _, k := range ks {
		if !seen[string(k)] {
			seen[string(k)] = true
			out = append(out, k)
		}
	}
	return out
}
