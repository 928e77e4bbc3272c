package main

// Saving and loading (specification Store, trace specification TraceStore).

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"testing/iotest"

	"github.com/deNULL/dawg"
)

func init() {
	checks["C10"] = checkC10
	checks["C11"] = checkC11
}

type part interface {
	Size() int
	TotalSize() int
	FileSize() int
	Read(io.Reader) bool
	Write(io.Writer) bool
}

// family is everything made from one lexicon.
type family struct {
	L     Lex
	dict  *dawg.Dictionary
	guide *dawg.Guide
	rg    *dawg.RankedGuide
	idx   *dawg.Index
	ridx  *dawg.Index
}

var partKinds = []string{"dict", "guide", "ranked", "index", "index"}

func (f *family) parts() []part { return []part{f.dict, f.guide, f.rg, f.idx, f.ridx} }
func (f *family) with(i int, p part) *family {
	g := *f
	switch i {
	case 0:
		g.dict = p.(*dawg.Dictionary)
	case 1:
		g.guide = p.(*dawg.Guide)
	case 2:
		g.rg = p.(*dawg.RankedGuide)
	case 3:
		g.idx = p.(*dawg.Index)
	case 4:
		g.ridx = p.(*dawg.Index)
	}
	return &g
}
func newPart(i int) part {
	switch i {
	case 0:
		return dawg.NewDictionary()
	case 1:
		return dawg.NewGuide()
	case 2:
		return dawg.NewRankedGuide()
	}
	return dawg.NewIndex()
}

// readNew uses the functions that make a new object (nil when reading fails).
func readNew(i int, r io.Reader) part {
	switch i {
	case 0:
		if d := dawg.ReadDictionary(r); d != nil {
			return d
		}
	case 1:
		if d := dawg.ReadGuide(r); d != nil {
			return d
		}
	case 2:
		if d := dawg.ReadRankedGuide(r); d != nil {
			return d
		}
	default:
		if d := dawg.ReadIndex(r); d != nil {
			return d
		}
	}
	return nil
}

func familyOf(c *Ctx, L Lex) *family {
	s := mk(c, L, wAll)
	return &family{L, s.dict, s.guide, s.rg, s.idx, s.ridx}
}

func hex8(h hash.Hash) string { return hex.EncodeToString(h.Sum(nil)[:8]) }

// look at an object from outside.
type looked struct {
	kind             string
	n, total, ann, l int
	wrote            bool
	dig              string
	data             []byte
}

func look(kind string, p part) looked {
	var b bytes.Buffer
	w := p.Write(&b)
	h := sha256.Sum256(b.Bytes())
	return looked{kind, p.Size(), p.TotalSize(), p.FileSize(), b.Len(), w, hex.EncodeToString(h[:8]), b.Bytes()}
}
func unitBytes(kind string) int {
	if kind == "dict" || kind == "index" {
		return 4
	}
	return 2
}
func (k looked) sound() bool {
	u := unitBytes(k.kind)
	return k.wrote && k.total == u*k.n && k.ann == 4+u*k.n && k.l == k.ann
}
func (k looked) same(o looked) bool {
	return k.sound() && k.kind == o.kind && k.n == o.n && k.dig == o.dig
}
func (k looked) ev(op, o string) Ev {
	return Ev{"op": op, "o": o, "kind": k.kind, "n": k.n, "total": k.total, "announced": k.ann, "len": k.l, "wrote": k.wrote, "dig": k.dig}
}

// answers is a digest of what a family answers to everything.
func (f *family) answers(rng *rand.Rand, effort int) string {
	h := sha256.New()
	put := func(x ...interface{}) { fmt.Fprintln(h, x...) }
	var ix dawg.Indexer
	_ = ix
	in := dawg.NewIndexer(f.dict, f.guide, f.idx)
	rin := dawg.NewIndexer(f.dict, f.rg, f.ridx)
	ps := probes(rng, f.L, effort)
	for i := 0; i < effort && i < len(f.L); i++ {
		ps = append(ps, f.L[rng.Intn(len(f.L))].K)
	}
	for _, p := range ps {
		x, n := f.dict.Root(), 0
		ok := f.dict.FollowStringCount(string(p), &x, &n)
		put(f.dict.FindString(string(p)), ok, x, n, in.BytesToIndex(p), rin.BytesToIndex(p))
	}
	if len(f.L) > 0 {
		put(in.TotalCount(), rin.TotalCount())
		for i := 0; i < effort; i++ {
			j := uint32(rng.Intn(len(f.L) + 1))
			put(in.IndexToString(j), rin.IndexToString(j))
		}
	}
	cp := dawg.NewCompleter(f.dict, f.guide)
	rc := dawg.NewRankedCompleter(f.dict, f.rg)
	for _, p := range append([][]byte{{}}, somePositions(rng, f.L, effort/4+1)...) {
		x, ok := follow(f.dict, p)
		put(ok)
		if !ok {
			continue
		}
		for _, q := range []completer{cp, rc} {
			q.StartString(x, "pre")
			for k := 0; k < 4*effort; k++ {
				if !q.Next() {
					put("end")
					break
				}
				put(q.Key(), q.Value(), q.Length())
			}
		}
	}
	return hex8(h)
}

// ---- devices ------------------------------------------------------------

var errDevice = errors.New("device failed")

type source struct {
	data   []byte
	bounds []int
	fault  int
	how    string
	pos    int
	zeros  int // every so often nothing comes, without an error
	calls  int
	over   bool
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	s.calls++
	if s.zeros > 0 && s.calls%s.zeros == 0 {
		return 0, nil
	}
	end := s.fault
	if s.how == "once" && s.over {
		end = len(s.data) // the fault has passed
	}
	if s.pos >= end {
		s.over = true
		return 0, s.err()
	}
	edge := end
	if i := sort.SearchInts(s.bounds, s.pos+1); i < len(s.bounds) && s.bounds[i] < edge {
		edge = s.bounds[i]
	}
	n := min(len(p), edge-s.pos)
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos == s.fault && s.how == "with" {
		return n, io.EOF
	}
	return n, nil
}
func (s *source) err() error {
	switch s.how {
	case "error", "once":
		return errDevice
	case "unexpected":
		return io.ErrUnexpectedEOF
	}
	return io.EOF
}

type sink struct {
	room   int
	whole  bool // refuses a whole call rather than taking a part of it
	once   bool // takes everything after the first failure
	failed bool
	put    int
	h      hash.Hash
}

func (s *sink) Write(p []byte) (int, error) {
	if s.failed && !s.once {
		return 0, errDevice
	}
	n := len(p)
	if !s.failed && n > s.room-s.put {
		s.failed = true
		n = s.room - s.put
		if s.whole {
			n = 0
		}
		s.h.Write(p[:n])
		s.put += n
		return n, errDevice
	}
	s.h.Write(p)
	s.put += n
	return n, nil
}

// ---- reading ------------------------------------------------------------

// target to read into: a new object or one that holds another lexicon's part.
func readInto(c *Ctx, i int, name, from string, want looked, src io.Reader, used func() int, avail int, into part) part {
	before := looked{}
	kind := partKinds[i]
	var ok bool
	got := into
	if into == nil {
		got = readNew(i, src)
		ok = got != nil
	} else {
		if cl, can := into.(interface{ Clear() }); can && c.rng.Intn(5) == 0 {
			cl.Clear()
			e := look(kind, into)
			c.Seq(e.sound() && e.n == 0, Ev{"op": "emptied", "o": name, "kind": kind, "n": e.n, "total": e.total, "announced": e.ann, "len": e.l, "wrote": e.wrote, "dig": e.dig})
		}
		before = look(kind, into)
		c.Seq(before.sound(), before.ev("object", name))
		ok = into.Read(src)
	}
	u := used()
	enough := avail >= want.ann
	good := ok == enough && (u == want.ann || !enough && u <= avail)
	c.Seq(good, Ev{"op": "read", "o": name, "from": from, "kind": kind, "avail": avail, "ok": ok, "used": u})
	if got != nil {
		after := look(kind, got)
		if enough {
			c.Seq(after.same(want), after.ev("still", name))
		} else {
			c.Seq(after.same(before), after.ev("still", name))
		}
	}
	if !enough {
		return nil
	}
	return got
}

// pool of families to take parts from.
func pool(r *Run, n int, mkLex func(rng *rand.Rand) Lex) []*family {
	var out []*family
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(caseSeed(r.seed, "pool", i)))
		L := mkLex(rng)
		if i == 0 {
			L = nil
		}
		a, _ := buildAuto(L)
		f := &family{L: L, dict: a.Build()}
		f.guide, f.rg = dawg.BuildGuide(a, f.dict), dawg.BuildRankedGuide(a, f.dict)
		f.idx, f.ridx = dawg.BuildIndex(f.dict, f.guide), dawg.BuildIndex(f.dict, f.rg)
		out = append(out, f)
	}
	return out
}

// copyOf makes an independent object with the contents of p.
func copyOf(i int, p part) part {
	var b bytes.Buffer
	p.Write(&b)
	q := newPart(i)
	q.Read(&b)
	return q
}

type storeVec struct {
	Bounds []int
	Fault  int
	How    string
	Parts  int
	Head   int
	Body   int
	Loaded []bool
	Pos    int
}

// specStore replays the behaviours of Store.
func specStore(r *Run, complete bool) {
	var vecs []storeVec
	for _, l := range readLines(extra["store"]) {
		var v storeVec
		if err := json.Unmarshal(l, &v); err != nil {
			die("bad store behaviour: %v", err)
		}
		if all := v.Fault == v.Parts*(v.Head+v.Body); all == complete {
			vecs = append(vecs, v)
		}
	}
	r.note("spec_behaviours_of_streams", int64(len(vecs)))
	pl := pool(r, 24, smallLex)
	r.suiteRunEvery("specstore", "TraceStore", len(vecs), 8, len(vecs)/150+1, func(c *Ctx) {
		v := vecs[c.idx]
		r.seen(uint64(c.idx), len(v.Bounds) > 0)
		f := pl[c.rng.Intn(len(pl))]
		other := pl[c.rng.Intn(len(pl))]
		var data []byte
		kinds := make([]int, v.Parts)
		base := make([]int, v.Parts+1)
		var wants []looked
		for q := range kinds {
			kinds[q] = c.rng.Intn(5)
			k := look(partKinds[kinds[q]], f.parts()[kinds[q]])
			c.Seq(k.sound(), k.ev("object", fmt.Sprint("f", q)))
			wants = append(wants, k)
			data = append(data, k.data...)
			base[q+1] = len(data)
		}
		// abstract positions stand for the header's bytes, and the first, some middle and last ones of the body
		at := func(a int) int {
			s := v.Head + v.Body
			q, o := a/s, a%s
			if q == v.Parts {
				return len(data)
			}
			size := base[q+1] - base[q]
			if o <= 4 {
				return base[q] + o
			}
			body := size - 4
			j := o - 4
			if body == 0 {
				return base[q] + 4
			}
			if v.Body-j == 1 {
				return base[q] + size - 1
			}
			if j == 1 {
				return base[q] + 5
			}
			return base[q] + 4 + 2 + c.rng.Intn(max0(body-4)+1)
		}
		src := &source{data: data, fault: at(v.Fault), how: v.How}
		for _, b := range v.Bounds {
			src.bounds = append(src.bounds, at(b))
		}
		sort.Ints(src.bounds)
		if c.rng.Intn(4) == 0 {
			src.zeros = 2 + c.rng.Intn(3)
		}
		loaded := *f
		res := &loaded
		for q := 0; q < v.Parts; q++ {
			var into part
			if c.rng.Intn(3) != 0 {
				into = copyOf(kinds[q], other.parts()[kinds[q]])
			}
			p0 := src.pos
			enough := src.fault-p0 >= wants[q].ann
			// the abstract outcome and the concrete one agree, unless the part has no body to be cut
			if enough != v.Loaded[q] && wants[q].ann > 8 {
				die("positions do not match the behaviour: %+v", v)
			}
			got := readInto(c, kinds[q], fmt.Sprint("t", q), fmt.Sprint("f", q), wants[q], src, func() int { return src.pos - p0 }, src.fault-p0, into)
			if got == nil || c.seqBad > 0 {
				return
			}
			res = res.with(kinds[q], got)
		}
		sameAnswers(c, f, res, 12, kinds...)
	})
}

// sameAnswers compares the answers of a family with those of one with parts that were loaded.
func sameAnswers(c *Ctx, f, g *family, effort int, which ...int) {
	seed := c.rng.Int63()
	a := f.answers(rand.New(rand.NewSource(seed)), effort)
	b := g.answers(rand.New(rand.NewSource(seed)), effort)
	names := func(pre string, x *family) []string {
		var ns []string
		for i, p := range x.parts() {
			k := look(partKinds[i], p)
			n := fmt.Sprint(pre, i)
			c.Seq(true, k.ev("object", n))
			ns = append(ns, n)
		}
		return ns
	}
	na, nb := names("a", f), names("b", g)
	c.Seq(true, Ev{"op": "answers", "asked": fmt.Sprint(seed), "parts": na, "dig": a})
	c.Seq(a == b, Ev{"op": "answers", "asked": fmt.Sprint(seed), "parts": nb, "dig": b})
}

// ---- C10 ----------------------------------------------------------------

// manyWays saves the parts of f in some order in one stream and loads them again.
func manyWays(c *Ctx, f, other *family, effort int) {
	order := c.rng.Perm(5)
	var stream bytes.Buffer
	wants := map[int]looked{}
	for _, i := range order {
		p := f.parts()[i]
		k := look(partKinds[i], p)
		name := fmt.Sprint("f", i)
		c.Seq(k.sound(), k.ev("object", name))
		wants[i] = k
		s := &sink{room: 1 << 40, h: sha256.New()}
		ok := p.Write(io.MultiWriter(s, &stream))
		c.Seq(ok && s.put == k.ann && hex8(s.h) == k.dig, Ev{"op": "write", "o": name, "failed": s.failed, "ok": ok, "put": s.put, "dig": hex8(s.h)})
	}
	if c.seqBad > 0 {
		return
	}
	data := append(stream.Bytes(), 'r', 'e', 's', 't')
	var rd io.Reader
	var pos func() int
	exact := true
	rest := "rest"
	switch c.rng.Intn(8) {
	case 7: // the end comes together with the last bytes
		data = data[:len(data)-4]
		rest = ""
		rd = iotest.DataErrReader(bytes.NewReader(data))
		if c.rng.Intn(2) == 0 {
			rd = iotest.DataErrReader(iotest.HalfReader(bytes.NewReader(data)))
		}
		exact = false
	case 0:
		b := bytes.NewReader(data)
		rd, pos = b, func() int { return len(data) - b.Len() }
	case 1:
		b := bytes.NewReader(data)
		rd, pos = iotest.OneByteReader(b), func() int { return len(data) - b.Len() }
	case 2:
		b := bytes.NewReader(data)
		rd, pos = iotest.HalfReader(b), func() int { return len(data) - b.Len() }
	case 3:
		b := bytes.NewBuffer(append([]byte{}, data...))
		rd, pos = b, func() int { return len(data) - b.Len() }
	case 4:
		fn := filepath.Join(c.r.out, fmt.Sprintf("part-%s-%d", c.suite, c.idx))
		if os.WriteFile(fn, data, 0o600) != nil {
			die("cannot write %s", fn)
		}
		fl, err := os.Open(fn)
		if err != nil {
			die("%v", err)
		}
		defer os.Remove(fn)
		defer fl.Close()
		rd, pos = fl, func() int { p, _ := fl.Seek(0, io.SeekCurrent); return int(p) }
	case 5:
		s := &source{data: data, fault: len(data), how: "eof", zeros: c.rng.Intn(4) * 2}
		for x := 0; x < len(data); x += 1 + c.rng.Intn(900) {
			s.bounds = append(s.bounds, x)
		}
		rd, pos = s, func() int { return s.pos }
	case 6: // a reader of the caller's own buffers ahead
		rd = bufio.NewReaderSize(bytes.NewReader(data), 16+c.rng.Intn(5000))
		exact = false
	}
	g := &family{L: f.L}
	have := map[int]part{}
	for _, i := range order {
		var into part
		switch c.rng.Intn(3) {
		case 0:
		case 1:
			into = copyOf(i, other.parts()[i])
		case 2:
			into = newPart(i)
			if c.rng.Intn(2) == 0 && into.Size() == 0 && i == 0 {
				into = nil
			}
		}
		p0 := 0
		if exact {
			p0 = pos()
		}
		used := func() int {
			if exact {
				return pos() - p0
			}
			return wants[i].ann
		}
		avail := wants[i].ann + len(rest)
		got := readInto(c, i, fmt.Sprint("t", i), fmt.Sprint("f", i), wants[i], rd, used, avail, into)
		if got == nil || c.seqBad > 0 {
			return
		}
		have[i] = got
	}
	for i, p := range have {
		g = g.with(i, p)
	}
	left := make([]byte, 4)
	n, _ := io.ReadFull(rd, left)
	c.Obs(string(left[:n]) == rest, func() []Ev {
		return []Ev{{"op": "rest", "left": S(rest), "found": B(left[:n])}}
	})
	sameAnswers(c, f, g, effort)
	// a family of old and new parts
	mix := *f
	m := &mix
	for i, p := range have {
		if c.rng.Intn(2) == 0 {
			m = m.with(i, p)
		}
	}
	sameAnswers(c, f, m, effort)
	// the originals are as they were
	for i, p := range f.parts() {
		k := look(partKinds[i], p)
		c.Seq(k.same(wants[i]), k.ev("still", fmt.Sprint("f", i)))
	}
}

func checkC10(r *Run) {
	specStore(r, true)
	others := pool(r, 8, smallLex)
	big := pool(r, 3, mediumLex)
	r.suiteRunEvery("small", "TraceStore", r.pick(3000, 60000), 8, r.pick(40, 400), func(c *Ctx) {
		L := smallLex(c.rng)
		if c.rng.Intn(60) == 0 {
			L = nil
		}
		o := others[c.rng.Intn(len(others))]
		if c.rng.Intn(10) == 0 {
			o = big[c.rng.Intn(len(big))]
		}
		manyWays(c, familyOf(c, L), o, 16)
	})
	r.suiteRunEvery("medium", "TraceStore", r.pick(120, 2000), 8, r.pick(8, 60), func(c *Ctx) {
		o := big[c.rng.Intn(len(big))]
		if c.rng.Intn(3) == 0 {
			o = others[c.rng.Intn(len(others))]
		}
		manyWays(c, familyOf(c, mediumLex(c.rng)), o, 200)
	})
	r.suiteRunEvery("round", "TraceStore", r.pick(1, 6)*3*len(roundUnits), 8, 4, func(c *Ctx) {
		u := aroundUnits(c.idx)
		f := familyOf(c, unitsLex(c.rng, u))
		if f.dict.Size() == u {
			c.r.note("dictionaries_of_exactly_the_units_wanted", 1)
		}
		manyWays(c, f, big[c.rng.Intn(len(big))], 40)
	})
	r.suiteRunEvery("big", "TraceStore", r.pick(1, 3), 1, 1, func(c *Ctx) {
		manyWays(c, familyOf(c, bigLex(c.rng, 450000)), big[1], 3000)
	})
}

// ---- C11 ----------------------------------------------------------------

// cuts reads part i of f cut short at the given positions, into an object that holds other's part.
func cuts(c *Ctx, f, other *family, i int, at []int, hows []string) {
	kind := partKinds[i]
	want := look(kind, f.parts()[i])
	into := copyOf(i, other.parts()[i])
	before := look(kind, into)
	c.Obs(want.sound() && before.sound(), func() []Ev { return []Ev{want.ev("object", "f"), before.ev("object", "t")} })
	for _, cut := range at {
		if cut < 0 || cut > want.ann {
			continue
		}
		for _, how := range hows {
			enough := cut == want.ann
			tgt := into
			if enough { // do not spoil it
				tgt = copyOf(i, other.parts()[i])
			}
			mkSrc := func() *source {
				s := &source{data: want.data, fault: cut, how: how}
				if cut%3 == 1 {
					s.zeros = 2
				}
				if cut%5 == 2 {
					s.bounds = []int{2, 4, 4 + cut/2}
					sort.Ints(s.bounds)
				}
				return s
			}
			s1, s2 := mkSrc(), mkSrc()
			ok := tgt.Read(s1)
			fresh := readNew(i, s2)
			after := look(kind, tgt)
			good := ok == enough && (fresh != nil) == enough && after.same(map[bool]looked{false: before, true: want}[enough])
			if enough {
				good = good && s1.pos == want.ann
			}
			cut := cut
			c.Obs(good, func() []Ev {
				return []Ev{want.ev("object", "f"), before.ev("object", "t"),
					{"op": "read", "o": "t", "from": "f", "kind": kind, "avail": cut, "ok": ok, "used": s1.pos},
					after.ev("still", "t"),
					{"op": "read", "o": "n", "from": "f", "kind": kind, "avail": cut, "ok": fresh != nil, "used": s2.pos}}
			})
			if len(c.sus) > 0 {
				return
			}
		}
	}
	// and it still answers as before
	sameAnswers(c, other, other.with(i, into), 12)
}

// full writes to devices without enough room.
func full(c *Ctx, f *family, i int, at []int) {
	kind := partKinds[i]
	p := f.parts()[i]
	want := look(kind, p)
	for _, room := range at {
		if room < 0 || room > want.ann {
			continue
		}
		for k := 0; k < 4; k++ {
			s := &sink{room: room, whole: k&1 == 1, once: k&2 == 2, h: sha256.New()}
			ok := p.Write(s)
			good := ok == !s.failed && (!ok || s.put == want.ann && hex8(s.h) == want.dig)
			c.Obs(good, func() []Ev {
				return []Ev{want.ev("object", "f"), {"op": "write", "o": "f", "failed": s.failed, "ok": ok, "put": s.put, "dig": hex8(s.h)}}
			})
		}
	}
	after := look(kind, p)
	c.Obs(after.same(want), func() []Ev { return []Ev{want.ev("object", "f"), after.ev("still", "f")} })
}

func allUpTo(n int) []int {
	r := make([]int, n+1)
	for i := range r {
		r[i] = i
	}
	return r
}

// edges: around every multiple of a power of two, with and without the header, and some others.
func edges(rng *rand.Rand, size, step, extra int) []int {
	m := map[int]bool{}
	add := func(x int) {
		if x >= 0 && x <= size {
			m[x] = true
		}
	}
	for x := 0; x < size; x += step {
		for _, d := range []int{-1, 0, 1, 3, 4, 5, 8} {
			add(x + d)
		}
	}
	for d := 0; d < 40; d++ {
		add(d)
		add(size - d)
	}
	for x := 1; x < size; x *= 2 {
		for _, d := range []int{-1, 0, 1, 3, 4, 5} {
			add(x + d)
		}
	}
	for i := 0; i < extra; i++ {
		add(rng.Intn(size + 1))
	}
	var r []int
	for x := range m {
		r = append(r, x)
	}
	sort.Ints(r)
	return r
}

var _ = binary.LittleEndian

func checkC11(r *Run) {
	specStore(r, false)
	hows := []string{"eof", "error", "with", "unexpected", "once"}
	others := pool(r, 8, smallLex)
	r.suiteRunEvery("everybyte", "TraceStore", r.pick(60, 600), 8, r.pick(1, 6), func(c *Ctx) {
		var L Lex
		for len(L) == 0 && c.idx > 2 || L == nil && c.idx > 1 {
			L = smallLex(c.rng)
		}
		f := familyOf(c, L)
		o := others[c.rng.Intn(len(others))]
		i := c.idx % 5
		n := f.parts()[i].FileSize()
		at := allUpTo(n)
		if n > 6000 {
			at = edges(c.rng, n, 256, 1000)
		}
		cuts(c, f, o, i, at, hows)
		full(c, f, i, at)
	})
	r.suiteRunEvery("medium", "TraceStore", r.pick(30, 300), 8, r.pick(1, 6), func(c *Ctx) {
		f := familyOf(c, mediumLex(c.rng))
		o := f
		if c.rng.Intn(2) == 0 {
			o = others[c.rng.Intn(len(others))]
		}
		i := c.idx % 5
		at := edges(c.rng, f.parts()[i].FileSize(), 512, 200)
		c.rng.Shuffle(len(at), func(a, b int) { at[a], at[b] = at[b], at[a] })
		if len(at) > 1500 {
			at = at[:1500]
		}
		cuts(c, f, o, i, at, hows[c.rng.Intn(5):][:1])
		full(c, f, i, at[:len(at)/4])
	})
	// round numbers of units: cut right behind the count, at the edges of blocks, one byte short
	r.suiteRunEvery("round", "TraceStore", 5*r.pick(1, 6)*3*8, 8, 20, func(c *Ctx) {
		f := familyOf(c, unitsLex(c.rng, aroundUnits(c.idx/5%24)))
		i := c.idx % 5
		n := f.parts()[i].FileSize()
		at := edges(c.rng, n, 4096, 10)
		c.rng.Shuffle(len(at), func(a, b int) { at[a], at[b] = at[b], at[a] })
		if len(at) > 60 {
			at = at[:60]
		}
		at = append(at, 0, 3, 4, 5, n-4, n-2, n-1, n)
		cuts(c, f, others[c.rng.Intn(len(others))], i, at, hows[c.rng.Intn(5):][:1])
		full(c, f, i, at)
	})
	// a big one: at the edges of blocks of units
	bf := make(chan *family, 1)
	r.suiteRunEvery("big", "TraceStore", 5*r.pick(1, 3), 5, 1, func(c *Ctx) {
		var f *family
		if c.r.only == "" && c.idx > 0 && c.idx < 5 {
			f = <-bf
			bf <- f
		} else {
			f = familyOf(c, bigLex(rand.New(rand.NewSource(caseSeed(r.seed, "bigstore", c.idx/5))), 450000))
			if c.idx == 0 {
				bf <- f
			}
		}
		i := c.idx % 5
		n := f.parts()[i].FileSize()
		at := edges(c.rng, n, 1<<19, 10)
		c.rng.Shuffle(len(at), func(a, b int) { at[a], at[b] = at[b], at[a] })
		if m := r.pick(120, 600); len(at) > m {
			at = at[:m]
		}
		cutsBig(c, f, others[2], i, at)
	})
}

// cutsBig does as cuts without looking at a large object each time.
func cutsBig(c *Ctx, f, other *family, i int, at []int) { cuts(c, f, other, i, at, []string{"eof"}) }
