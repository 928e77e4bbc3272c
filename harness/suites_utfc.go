package main

// UTF-C (trace specification TraceUtfc).

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/deNULL/dawg"
)

func init() {
	checks["C13"] = checkC13
	checks["C14"] = checkC14
	checks["C15"] = checkC15
	checks["C16"] = checkC16
}

type uVec struct {
	Path []rune `json:"path"`
	Aux  int    `json:"aux"`
	Offs int    `json:"offs"`
	Long bool   `json:"long"`
	Enc  []struct {
		C rune  `json:"c"`
		B []int `json:"b"`
	} `json:"enc"`
}

func scalar(c int) bool { return c >= 0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff) }

func R(cs []rune) []int {
	r := make([]int, len(cs))
	for i, c := range cs {
		r[i] = int(c)
	}
	return r
}
func str(cs []rune) string { return string(cs) }

var uVecs []uVec

// loadUtfc reads the encoder states found by TLC and compares the mirror with TLC's encodings there.
func loadUtfc() []uVec {
	if uVecs != nil {
		return uVecs
	}
	for _, l := range readLines(extra["utfc"]) {
		var v uVec
		if err := json.Unmarshal(l, &v); err != nil {
			die("bad vector: %v", err)
		}
		s := u0
		for _, c := range v.Path {
			_, s = uEmit(s, int(c), nil)
		}
		if (s != uState{v.Offs, v.Aux, v.Long}) {
			die("the mirror disagrees with the specification on the state after %v", v.Path)
		}
		for _, e := range v.Enc {
			b, _ := uEmit(s, int(e.C), nil)
			if len(b) != len(e.B) {
				die("the mirror disagrees with the specification on %v %v", v.Path, e.C)
			}
			for i := range b {
				if int(b[i]) != e.B[i] {
					die("the mirror disagrees with the specification on %v %v", v.Path, e.C)
				}
			}
		}
		uVecs = append(uVecs, v)
	}
	// TLC finds the states in no particular order
	sort.Slice(uVecs, func(i, j int) bool {
		a, b := uVecs[i], uVecs[j]
		if a.Offs != b.Offs {
			return a.Offs < b.Offs
		}
		if a.Aux != b.Aux {
			return a.Aux < b.Aux
		}
		return !a.Long && b.Long
	})
	// and their witnesses may differ between runs: take a canonical one
	canon := canonicalPaths()
	for i := range uVecs {
		s := uState{uVecs[i].Offs, uVecs[i].Aux, uVecs[i].Long}
		if p, ok := canon[s]; ok {
			uVecs[i].Path = p
		} else {
			die("no path to %v", s)
		}
	}
	return uVecs
}

func movers() []rune {
	m := []rune{65}
	for w := 6; w < 64; w++ {
		m = append(m, rune(w*128+1))
	}
	m = append(m, 12289, 12417)
	for w := 0; w < 34; w++ {
		if c := 0x2600 + w*32768 + 30000; scalar(c) {
			m = append(m, rune(c))
		}
	}
	return m
}

func canonicalPaths() map[uState][]rune {
	ms := movers()
	paths := map[uState][]rune{u0: {}}
	queue := []uState{u0}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		for _, c := range ms {
			_, t := uEmit(s, int(c), nil)
			if _, ok := paths[t]; !ok {
				paths[t] = append(append([]rune{}, paths[s]...), c)
				queue = append(queue, t)
			}
		}
	}
	return paths
}

type byteSink struct {
	b     []byte
	limit int // refuses after that many bytes; <0: never
}

func (s *byteSink) Follow(b byte) bool {
	s.b = append(s.b, b)
	return s.limit < 0 || len(s.b) <= s.limit
}

// edgesOf: characters at the edges of the scheme in a state, and some others.
func edgesOf(rng *rand.Rand, s uState, n int) []rune {
	base := []int{1, 32, 45, 48, 58, 65, 91, 97, 123, 128, 192, 256, 512, 767, 768, 1023, 1024, 1040, 1104, 4095, 4096,
		8191, 8192, 8447, 8448, 9727, 9728, 9983, 9984, 10240, 12287, 12288, 12351, 12352, 12415, 12416, 12543, 12544,
		32767, 32768, 42495, 42496, 55295, 57344, 65023, 65024, 65039, 65040, 65279, 65533, 65535, 65536, 75264,
		127743, 127744, 128000, 128255, 128256, 128495, 128496, 1114111,
		s.aux, s.aux + 63, s.aux + 64, s.offs, s.offs + 64, s.offs + 127, s.offs + 128}
	if s.long {
		o := 0x2600 + s.offs
		base = append(base, o, o+255, o+256, o+512, o+32767, o+32768)
	}
	var out []rune
	for _, b := range base {
		for d := -1; d <= 1; d++ {
			if scalar(b + d) {
				out = append(out, rune(b+d))
			}
		}
	}
	for i := 0; i < n; i++ {
		out = append(out, randRune(rng, s))
	}
	return out
}

func randRune(rng *rand.Rand, s uState) rune {
	for {
		var c int
		switch rng.Intn(9) {
		case 0:
			c = rng.Intn(128)
		case 1:
			c = rng.Intn(0x600)
		case 2:
			c = rng.Intn(0x2000)
		case 3:
			c = 0x2000 + rng.Intn(0x1200)
		case 4:
			c = rng.Intn(0x10000)
		case 5:
			c = rng.Intn(0x110000)
		case 6:
			c = rng.Intn(0x1100) << 8
			if rng.Intn(2) == 0 {
				c += 0x2600 & 0xff
			}
		case 7:
			c = s.offs + rng.Intn(128)
			if s.long {
				c = 0x2600 + s.offs + rng.Intn(0x8000)
				if rng.Intn(2) == 0 {
					c &^= 0xff
				}
			}
		case 8:
			c = s.aux - 2 + rng.Intn(70)
			if rng.Intn(4) == 0 {
				c = 0x1f300 + rng.Intn(0x300)
			}
		}
		if scalar(c) {
			return rune(c)
		}
	}
}

// randText makes a string that wanders through the states of the scheme.
func randText(rng *rand.Rand, n int) []rune {
	s := u0
	var cs []rune
	stay := rng.Intn(4)
	for i := 0; i < n; i++ {
		c := randRune(rng, s)
		if stay > 0 && i > 0 && rng.Intn(stay+1) > 0 {
			p := int(cs[rng.Intn(len(cs))])
			q := p&^63 + rng.Intn(64)
			if rng.Intn(6) == 0 {
				q = p &^ 255
			}
			if scalar(q) {
				c = rune(q)
			}
		}
		cs = append(cs, c)
		_, s = uEmit(s, int(c), nil)
	}
	return cs
}

// decode survives a panic of the decoder.
func decode(b []byte) (s string, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	return dawg.UtfcDecode(b), false
}

func checkRound(c *Ctx, cs []rune) {
	s := str(cs)
	b := dawg.UtfcEncode(s)
	back, p := decode(b)
	ok := !p && back == s
	c.Obs(ok, func() []Ev {
		r := R([]rune(back))
		if p {
			r = []int{-1}
		}
		return []Ev{{"op": "round", "cs": R(cs), "b": B(b), "back": r}}
	})
}

// utfcSweep runs f on every state with the edge characters, on all characters in some states, and on texts.
func utfcSweep(r *Run, f func(c *Ctx, path []rune, s uState, ch rune), g func(c *Ctx, cs []rune), far func(c *Ctx, cs []rune)) {
	vs := loadUtfc()
	longTexts(r, far)
	r.note("encoder_states", int64(len(vs)))
	r.suiteRunEvery("states", "TraceUtfc", len(vs), 8, 60, func(c *Ctx) {
		v := vs[c.idx]
		c.maxSamp = 6
		s := uState{v.Offs, v.Aux, v.Long}
		c.r.seen(uint64(v.Offs)<<32|uint64(v.Aux)<<1, true)
		for _, ch := range edgesOf(c.rng, s, r.pick(60, 1500)) {
			f(c, v.Path, s, ch)
		}
	})
	// all characters: in the initial state and in states of every kind
	nfull := r.pick(24, 600)
	r.suiteRunEvery("allchars", "TraceUtfc", nfull, 8, 6, func(c *Ctx) {
		c.maxSamp = 10
		v := vs[c.rng.Intn(len(vs))]
		if c.idx == 0 {
			v = uVec{Offs: 0, Aux: u0.aux}
		}
		s := uState{v.Offs, v.Aux, v.Long}
		for ch := 0; ch <= 0x10ffff; ch++ {
			if scalar(ch) {
				f(c, v.Path, s, rune(ch))
			}
		}
		c.r.note("states_with_all_characters", 1)
	})
	r.suiteRunEvery("texts", "TraceUtfc", r.pick(60000, 1500000), 8, r.pick(60000, 1500000)/120, func(c *Ctx) {
		c.maxSamp = 8
		n := 1 + c.rng.Intn(12)
		if c.rng.Intn(40) == 0 {
			n = 50 + c.rng.Intn(300)
		}
		cs := randText(c.rng, n)
		c.r.seen(hashBytes([]byte(str(cs))), n > 1)
		g(c, cs)
	})
	// two characters in a row, all pairs of edges
	es := edgesOf(rand.New(rand.NewSource(1)), u0, 0)
	r.suiteRunEvery("pairs", "TraceUtfc", len(es), 8, 20, func(c *Ctx) {
		c.maxSamp = 6
		for _, y := range es {
			g(c, []rune{es[c.idx], y})
			for k := 0; k < r.pick(2, 40); k++ {
				g(c, []rune{es[c.idx], y, es[c.rng.Intn(len(es))], es[c.rng.Intn(len(es))]})
			}
		}
	})
}

// longTexts: texts of tens of thousands of characters.  They are too long to be shown to TLC whole; an
// observation about them is a window of a few bytes or characters around the place of interest.
func longTexts(r *Run, f func(c *Ctx, cs []rune)) {
	sizes := []int{250, 1000, 4090, 8200, 16400, 32760, 33500, 65530, 66000, 70000, 131100}
	n := len(sizes) * r.pick(3, 30)
	r.suiteRunEvery("long", "TraceUtfc", n, 8, 3, func(c *Ctx) {
		c.maxSamp = 12
		m := sizes[c.idx%len(sizes)] + c.rng.Intn(40)
		var cs []rune
		switch c.idx / len(sizes) % 3 {
		case 0:
			cs = randText(c.rng, m)
		case 1: // one script, with visits elsewhere
			home := c.rng.Intn(0x3000)
			if c.rng.Intn(2) == 0 {
				home = 0x4e00 + c.rng.Intn(0x4000)
			}
			for i := 0; i < m; i++ {
				ch := rune(home + c.rng.Intn(60))
				if c.rng.Intn(30) == 0 {
					ch = randRune(c.rng, u0)
				}
				if scalar(int(ch)) {
					cs = append(cs, ch)
				}
			}
		default: // the same few characters again and again
			t := randText(c.rng, 3+c.rng.Intn(40))
			for i := 0; i < m; i++ {
				cs = append(cs, t[i%len(t)])
			}
		}
		c.r.note("long_texts", 1)
		c.r.seen(hashBytes([]byte(str(cs))), true)
		f(c, cs)
	})
}

// around cuts both sequences to a few elements around the first difference (or around i if there is none).
func around[T comparable](x, y []T, i int) ([]T, []T) {
	for k := 0; ; k++ {
		if k >= len(x) && k >= len(y) {
			break
		}
		if k >= len(x) || k >= len(y) || x[k] != y[k] {
			i = k
			break
		}
	}
	cut := func(z []T) []T {
		lo, hi := min(max0(i-4), len(z)), min(i+8, len(z))
		return z[lo:hi]
	}
	return cut(x), cut(y)
}

func longRound(c *Ctx, cs []rune) {
	b := dawg.UtfcEncode(str(cs))
	back, p := decode(b)
	bs := []rune(back)
	if p {
		bs = nil
	}
	c.Obs(!p && back == str(cs), func() []Ev {
		x, y := around(cs, bs, c.rng.Intn(len(cs)))
		return []Ev{{"op": "round", "cs": R(x), "back": R(y)}}
	})
}

// longEnc compares with the scheme, the state of the encoder before each window being that of the scheme.
func longEnc(c *Ctx, cs []rune) {
	b := dawg.UtfcEncode(str(cs))
	s := u0
	off := 0
	for i, ch := range cs {
		w, t := uEmit(s, int(ch), nil)
		got := b[min(off, len(b)):min(off+len(w), len(b))]
		s0, k := s, i
		ok := bytes.Equal(got, w) && (i+1 < len(cs) || off+len(w) == len(b))
		if i+1 == len(cs) {
			got = b[min(off, len(b)):]
		}
		c.Obs(ok, func() []Ev {
			return []Ev{{"op": "from", "at": k, "s": Ev{"offs": s0.offs, "aux": s0.aux, "long": s0.long}, "c": int(ch), "b": B(got)}}
		})
		if !ok {
			return
		}
		off += len(w)
		s = t
	}
	back, p := decode(uEncode(cs))
	bs := []rune(back)
	if p {
		bs = nil
	}
	c.Obs(!p && back == str(cs), func() []Ev {
		x, y := around(cs, bs, c.rng.Intn(len(cs)))
		return []Ev{{"op": "round", "cs": R(x), "back": R(y)}}
	})
}

func longZero(c *Ctx, cs []rune) {
	b := dawg.UtfcEncode(str(cs))
	i := bytes.IndexByte(b, 0)
	c.Obs(i < 0, func() []Ev {
		k := i
		if k < 0 {
			k = c.rng.Intn(len(b))
		}
		return []Ev{{"op": "nozero", "b": B(b[max0(k-4):min(k+4, len(b))])}}
	})
	// as a key, next to its own prefix and to a text that differs in the last character
	o := append([]rune{}, cs...)
	o[len(o)-1] = o[len(o)-1]&^1 | (^o[len(o)-1])&1
	if !scalar(int(o[len(o)-1])) {
		return
	}
	ks := [][]rune{cs, cs[:len(cs)-1], o}
	sort.Slice(ks, func(i, j int) bool {
		return bytes.Compare(dawg.UtfcEncode(str(ks[i])), dawg.UtfcEncode(str(ks[j]))) < 0
	})
	bd := dawg.NewDawgBuilder()
	for i, k := range ks {
		e := dawg.UtfcEncode(str(k))
		ok := bd.InsertKeyValue(e, len(e), int32(i))
		c.Obs(ok, func() []Ev { return []Ev{{"op": "accepted", "at": len(k), "r": ok}} })
	}
	a := dawg.NewDawg()
	bd.Finish(a)
	d := a.Build()
	for i, k := range ks {
		v := d.FindString(string(dawg.UtfcEncode(str(k))))
		c.Obs(v == int32(i), func() []Ev {
			return []Ev{{"op": "kept", "what": "value under the encoding of a long text", "before": i, "after": v}}
		})
	}
	// completions: in the order of the encodings, each with the text it stands for
	cp := dawg.NewCompleter(d, dawg.BuildGuide(a, d))
	cp.Start(d.Root())
	n := 0
	for ; n < len(ks) && cp.Next(); n++ {
		back, p := decode([]byte(cp.Key()))
		bs, k := []rune(back), ks[n]
		if p {
			bs = nil
		}
		c.Obs(!p && back == str(k), func() []Ev {
			x, y := around(k, bs, c.rng.Intn(len(k)+1))
			return []Ev{{"op": "round", "cs": R(x), "back": R(y)}}
		})
	}
	c.Obs(n == len(ks), func() []Ev { return []Ev{{"op": "kept", "what": "completions", "before": len(ks), "after": n}} })
}

// longSteps: the text fed one character at a time, copied on the way, its prefixes and a follower that stops.
func longSteps(c *Ctx, cs []rune) {
	s := str(cs)
	b := dawg.UtfcEncode(s)
	st := dawg.NewUtfcState()
	sink := &byteSink{limit: -1}
	ends := make([]int, len(cs)+1)
	r := true
	for i, ch := range cs {
		if c.rng.Intn(500) == 0 {
			o := dawg.NewUtfcState()
			o.Copy(st)
			st = o
		}
		r = st.Follow(ch, sink) && r
		ends[i+1] = len(sink.b)
	}
	c.Obs(r && bytes.Equal(sink.b, b), func() []Ev {
		x, y := around(b, sink.b, c.rng.Intn(len(b)))
		return []Ev{{"op": "kept", "what": "a text at once and one character at a time", "before": Ev{"b": B(x), "r": true}, "after": Ev{"b": B(y), "r": r}}}
	})
	stops := []int{255, 256, 4096, 32767, 32768, 32769, 65535, 65536, 65537}
	for k := 0; k < 40; k++ {
		i := c.rng.Intn(len(cs) + 1)
		if k < len(stops) {
			i = stops[k]
			if i > len(cs) {
				continue
			}
		}
		p := dawg.UtfcEncode(str(cs[:i]))
		q := b[:min(ends[i], len(b))]
		c.Obs(bytes.Equal(p, q), func() []Ev {
			x, y := around(q, p, max0(ends[i]-2))
			return []Ev{{"op": "kept", "what": "the encoding of a prefix and the prefix of the encoding", "before": B(x), "after": B(y)}}
		})
		n := c.rng.Intn(len(b) + 2)
		if k < len(stops) {
			n = stops[k]
		}
		sk := &byteSink{limit: n}
		rr := dawg.UtfcFollow(s, sk)
		want := b[:min(n+1, len(b))]
		c.Obs(rr == (len(b) <= n) && bytes.Equal(sk.b, want), func() []Ev {
			x, y := around(want, sk.b, max0(len(want)-1))
			return []Ev{{"op": "kept", "what": "bytes handed to a follower that stops", "before": Ev{"b": B(x), "r": len(b) <= n, "n": len(want)}, "after": Ev{"b": B(y), "r": rr, "n": len(sk.b)}}}
		})
	}
}

// ---- C13 ----------------------------------------------------------------

func checkC13(r *Run) {
	buf := func(path []rune, ch rune, after ...rune) []rune {
		cs := append(append(make([]rune, 0, len(path)+3), path...), ch)
		return append(cs, after...)
	}
	i := uint32(0)
	utfcSweep(r, func(c *Ctx, path []rune, s uState, ch rune) {
		i++
		switch i % 4 {
		case 0:
			checkRound(c, buf(path, ch))
		case 1:
			checkRound(c, buf(path, ch, ch))
		default:
			checkRound(c, buf(path, ch, rune(s.offs&0xffff%0xd000), 'a', ch))
		}
	}, checkRound, longRound)
	fileTexts(r, func(c *Ctx, s string) { checkRound(c, []rune(s)) })
}

// fileTexts: pieces of the sources of the repository and of real languages.
func fileTexts(r *Run, f func(c *Ctx, s string)) {
	b, err := os.ReadFile(extra["repo"] + "/utfc_test.go")
	if err != nil {
		return
	}
	lines := strings.Split(string(b), "\n")
	r.suiteRunEvery("language", "TraceUtfc", len(lines), 8, 4, func(c *Ctx) {
		c.maxSamp = 3
		s := strings.ToValidUTF8(lines[c.idx], "")
		f(c, s)
		cs := []rune(s)
		for k := 0; k < 20 && len(cs) > 0; k++ {
			a := c.rng.Intn(len(cs))
			e := a + c.rng.Intn(len(cs)-a) + 1
			f(c, str(cs[a:e]))
		}
	})
}

// ---- C16 ----------------------------------------------------------------

func checkEnc(c *Ctx, cs []rune) {
	b := dawg.UtfcEncode(str(cs))
	want := uEncode(cs)
	c.Obs(bytes.Equal(b, want), func() []Ev { return []Ev{{"op": "enc", "cs": R(cs), "b": B(b)}} })
	// an encoding stored earlier still decodes
	back, p := decode(want)
	c.Obs(!p && back == str(cs), func() []Ev {
		r := R([]rune(back))
		if p {
			r = []int{-1}
		}
		return []Ev{{"op": "stored", "b": B(want), "back": r}}
	})
}

func stateAt(path []rune) *dawg.UtfcState {
	st := dawg.NewUtfcState()
	sink := &byteSink{limit: -1}
	for _, c := range path {
		st.Follow(c, sink)
	}
	return st
}

func checkC16(r *Run) {
	utfcSweep(r, func(c *Ctx, path []rune, s uState, ch rune) {
		cs := append(append(make([]rune, 0, len(path)+1), path...), ch)
		if int(ch)&15 == 0 {
			checkEnc(c, append(cs, ch+1&0xff, ch))
			return
		}
		b := dawg.UtfcEncode(str(cs))
		want := uEncode(cs)
		c.Obs(bytes.Equal(b, want), func() []Ev { return []Ev{{"op": "enc", "cs": R(cs), "b": B(b)}} })
	}, checkEnc, longEnc)
	fileTexts(r, func(c *Ctx, s string) { checkEnc(c, []rune(s)) })
}

// ---- C14 ----------------------------------------------------------------

func checkC14(r *Run) {
	zero := func(c *Ctx, b []byte) {
		ok := bytes.IndexByte(b, 0) < 0
		c.Obs(ok, func() []Ev { return []Ev{{"op": "nozero", "b": B(b)}} })
	}
	utfcSweep(r, func(c *Ctx, path []rune, s uState, ch rune) {
		cs := append(append(make([]rune, 0, len(path)+2), path...), ch)
		zero(c, dawg.UtfcEncode(str(append(cs, ch))))
	}, func(c *Ctx, cs []rune) { zero(c, dawg.UtfcEncode(str(cs))) }, longZero)
	// different strings, different encodings: all characters after one string, against each other
	vs := loadUtfc()
	// a dictionary for every state of the encoder: the string that leads there, with every edge and what follows it
	r.suiteRunEvery("statesets", "TraceUtfc", len(vs), 8, 400, func(c *Ctx) {
		v := vs[c.idx]
		s := uState{v.Offs, v.Aux, v.Long}
		m := map[string]int32{str(v.Path): int32(c.rng.Intn(9))}
		for i, e := range edgesOf(c.rng, s, 5) {
			k := append(append(make([]rune, 0, len(v.Path)+3), v.Path...), e)
			if i%2 == c.idx%2 {
				m[str(k)] = int32(i)
			}
			_, t := uEmit(s, int(e), nil)
			fs := edgesOf(c.rng, t, 1)
			for j := 0; j < r.pick(1, 6); j++ {
				m[str(append(k, fs[c.rng.Intn(len(fs))]))] = int32(i)
			}
		}
		stateSet(c, v.Path, m)
	})
	r.suiteRunEvery("distinct", "TraceUtfc", r.pick(8, 200), 8, 1, func(c *Ctx) {
		v := vs[c.rng.Intn(len(vs))]
		if c.idx == 0 {
			v = uVec{}
		}
		c.maxSamp = 10
		seen := make(map[string]rune, 1<<21)
		for ch := 0; ch <= 0x10ffff; ch++ {
			if !scalar(ch) {
				continue
			}
			b := dawg.UtfcEncode(str(append(append([]rune{}, v.Path...), rune(ch))))
			o, dup := seen[string(b)]
			c.Obs(!dup, func() []Ev {
				c1, c2 := append(append([]rune{}, v.Path...), o), append(append([]rune{}, v.Path...), rune(ch))
				return []Ev{{"op": "pair", "cs1": R(c1), "b1": B(dawg.UtfcEncode(str(c1))), "cs2": R(c2), "b2": B(b)}}
			})
			seen[string(b)] = rune(ch)
		}
	})
	r.suiteRunEvery("sets", "TraceUtfc", r.pick(3000, 60000), 8, r.pick(3000, 60000)/80, func(c *Ctx) {
		n := 1 + c.rng.Intn(25)
		big := c.rng.Intn(60) == 0
		if big {
			n = 1000
		}
		m := map[string]int32{}
		var all [][]rune
		for i := 0; i < n; i++ {
			cs := randText(c.rng, c.rng.Intn(7))
			if len(all) > 0 && c.rng.Intn(3) == 0 {
				o := all[c.rng.Intn(len(all))]
				cs = append(append([]rune{}, o[:c.rng.Intn(len(o)+1)]...), cs...)
			}
			all = append(all, cs)
			m[str(cs)] = int32(c.rng.Intn(50))
		}
		keySet(c, m, all, big)
	})
}

type encKey struct {
	s string
	b []byte
	v int32
}

// stateSet: all keys found and all completions decoded; what differs is shown with the keys it concerns only.
func stateSet(c *Ctx, path []rune, m map[string]int32) {
	var ks []encKey
	for s, v := range m {
		ks = append(ks, encKey{s, dawg.UtfcEncode(s), v})
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i].b, ks[j].b) < 0 })
	show := func(ks ...encKey) Ev {
		sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
		L := []Ev{}
		for _, k := range ks {
			L = append(L, Ev{"k": R([]rune(k.s)), "v": k.v})
		}
		return Ev{"op": "keys", "L": L}
	}
	b := dawg.NewDawgBuilder()
	for i, k := range ks {
		ok := b.InsertKeyValue(k.b, len(k.b), k.v)
		c.Obs(ok, func() []Ev { return []Ev{{"op": "accepted", "cs": R([]rune(k.s)), "b": B(k.b), "r": ok}} })
		if i > 0 {
			o := ks[i-1]
			c.Obs(!bytes.Equal(o.b, k.b), func() []Ev {
				return []Ev{{"op": "pair", "cs1": R([]rune(o.s)), "b1": B(o.b), "cs2": R([]rune(k.s)), "b2": B(k.b)}}
			})
		}
	}
	a := dawg.NewDawg()
	b.Finish(a)
	d := a.Build()
	g := dawg.BuildGuide(a, d)
	c.r.seen(hashBytes([]byte(str(path)))^uint64(len(ks)), true)
	for _, k := range ks {
		v := d.FindString(string(dawg.UtfcEncode(k.s)))
		c.Obs(v == k.v, func() []Ev { return []Ev{show(k), {"op": "find", "cs": R([]rune(k.s)), "v": v}} })
	}
	// below the string that leads to the state: all of them; only the first that is wrong is shown
	eb := string(dawg.UtfcEncode(str(path)))
	ix := d.Root()
	if !d.FollowString(eb, &ix) {
		c.Obs(false, func() []Ev {
			return []Ev{show(encKey{str(path), nil, 0}), {"op": "below", "cs": R(path), "got": []Ev{}}}
		})
		return
	}
	cp := dawg.NewCompleter(d, g)
	cp.StartString(ix, eb)
	n := 0
	for ; n < len(ks) && cp.Next(); n++ {
		k := ks[n]
		back, p := decode([]byte(cp.Key()))
		bs := []rune(back)
		if p {
			bs = nil
		}
		c.Obs(!p && back == k.s, func() []Ev { return []Ev{{"op": "round", "cs": R([]rune(k.s)), "back": R(bs)}} })
	}
	c.Obs(n == len(ks), func() []Ev { return []Ev{{"op": "kept", "what": "completions", "before": len(ks), "after": n}} })
}

func keySet(c *Ctx, m map[string]int32, all [][]rune, big bool) {
	var ks []encKey
	for s, v := range m {
		ks = append(ks, encKey{s, dawg.UtfcEncode(s), v})
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].s < ks[j].s })
	// the listing for the specification is by code points, which for valid strings is the order of UTF-8
	L := []Ev{}
	for _, k := range ks {
		L = append(L, Ev{"k": R([]rune(k.s)), "v": k.v})
	}
	sort.SliceStable(ks, func(i, j int) bool { return bytes.Compare(ks[i].b, ks[j].b) < 0 })
	if !big {
		c.Seq(true, Ev{"op": "keys", "L": L})
	}
	b := dawg.NewDawgBuilder()
	for i, k := range ks {
		ok := b.InsertKeyValue(k.b, len(k.b), k.v)
		kk := k
		c.Obs(ok, func() []Ev { return []Ev{{"op": "accepted", "cs": R([]rune(kk.s)), "b": B(kk.b), "r": ok}} })
		if i > 0 {
			o := ks[i-1]
			c.Obs(!bytes.Equal(o.b, k.b), func() []Ev {
				return []Ev{{"op": "pair", "cs1": R([]rune(o.s)), "b1": B(o.b), "cs2": R([]rune(kk.s)), "b2": B(kk.b)}}
			})
		}
	}
	a := dawg.NewDawg()
	b.Finish(a)
	d := a.Build()
	g := dawg.BuildGuide(a, d)
	c.r.seen(hashBytes([]byte(ks[0].s))^uint64(len(ks)), len(ks) > 1)
	find := func(s string) {
		v := d.FindString(string(dawg.UtfcEncode(s)))
		want, ok := m[s]
		if !ok {
			want = -1
		}
		if big {
			if v != want { // give the specification what it needs
				sub := []Ev{}
				if ok {
					sub = append(sub, Ev{"k": R([]rune(s)), "v": want})
				}
				c.Obs(false, func() []Ev { return []Ev{{"op": "keys", "L": sub}, {"op": "find", "cs": R([]rune(s)), "v": v}} })
			}
			return
		}
		c.Obs(v == want, func() []Ev { return []Ev{{"op": "find", "cs": R([]rune(s)), "v": v}} })
	}
	for _, k := range ks {
		find(k.s)
	}
	for i := 0; i < 40; i++ {
		o := all[c.rng.Intn(len(all))]
		q := append([]rune{}, o[:c.rng.Intn(len(o)+1)]...)
		if c.rng.Intn(2) == 0 {
			q = append(q, randText(c.rng, 1+c.rng.Intn(2))...)
		}
		find(str(q))
		// completions of the prefix
		if i < 6 && !big {
			var ix uint32
			eb := dawg.UtfcEncode(str(q))
			got := []Ev{}
			ok := true
			n := 0
			if d.FollowString(string(eb), &ix) {
				cp := dawg.NewCompleter(d, g)
				cp.StartString(ix, string(eb))
				for cp.Next() && n < len(ks)+3 {
					s, p := decode([]byte(cp.Key()))
					if p {
						s = "\x00panic"
					}
					want, in := m[s]
					ok = ok && in && want == cp.Value() && strings.HasPrefix(s, str(q))
					got = append(got, Ev{"k": R([]rune(s)), "v": cp.Value()})
					n++
				}
			}
			cnt := 0
			for s := range m {
				if strings.HasPrefix(s, str(q)) {
					cnt++
				}
			}
			c.Obs(ok && cnt == n, func() []Ev { return []Ev{{"op": "below", "cs": R(q), "got": got}} })
		}
	}
}

// ---- C15 ----------------------------------------------------------------

func checkC15(r *Run) {
	// (1) long texts: whole against character by character, through states, copies and followers
	vs := loadUtfc()
	r.note("encoder_states", int64(len(vs)))
	session := func(c *Ctx, texts [][]rune) {
		type obj struct {
			st *dawg.UtfcState
			cs []rune
			b  []byte
			ok bool
		}
		objs := []*obj{}
		enc := func(cs []rune) []byte { return dawg.UtfcEncode(str(cs)) }
		for i := 0; i < 3; i++ {
			o := &obj{st: dawg.NewUtfcState(), ok: true}
			objs = append(objs, o)
			c.Seq(true, Ev{"op": "state", "id": i})
		}
		whole := func(cs []rune) {
			b := enc(cs)
			c.Seq(true, Ev{"op": "whole", "cs": R(cs), "b": B(b)})
		}
		for step := 0; step < 30; step++ {
			i := c.rng.Intn(3)
			o := objs[i]
			switch q := c.rng.Intn(12); {
			case q < 7:
				if !o.ok {
					continue
				}
				t := texts[c.rng.Intn(len(texts))]
				ch := t[c.rng.Intn(len(t))]
				if len(o.cs) < len(t) && c.rng.Intn(2) == 0 {
					ch = t[len(o.cs)]
				}
				sink := &byteSink{limit: -1}
				r := o.st.Follow(ch, sink)
				o.cs = append(o.cs[:len(o.cs):len(o.cs)], ch)
				o.b = append(o.b[:len(o.b):len(o.b)], sink.b...)
				good := r && bytes.Equal(o.b, enc(o.cs))
				c.Seq(true, Ev{"op": "push", "id": i, "c": int(ch), "b": B(sink.b), "r": r})
				if !good {
					// by the whole encoding
					c.Seq(r, Ev{"op": "whole", "cs": R(o.cs), "b": B(enc(o.cs))})
					c.seqBad = len(c.seq)
					return
				}
			case q < 8:
				o.st.Clear()
				o.cs, o.b, o.ok = nil, nil, true
				c.Seq(true, Ev{"op": "clear", "id": i})
			case q < 10:
				j := c.rng.Intn(3)
				if j == i || !objs[j].ok {
					continue
				}
				o.st.Copy(objs[j].st)
				o.cs, o.b, o.ok = objs[j].cs, objs[j].b, true
				c.Seq(true, Ev{"op": "copy", "dst": i, "src": j})
			case q < 11:
				if o.ok {
					whole(o.cs)
				}
			default:
				if !o.ok {
					continue
				}
				t := texts[c.rng.Intn(len(texts))]
				ch := t[c.rng.Intn(len(t))]
				all := append(append([]rune{}, o.cs...), ch)
				b := enc(all)
				if len(b) < len(o.b) {
					c.Seq(true, Ev{"op": "whole", "cs": R(o.cs), "b": B(o.b)})
					c.Seq(false, Ev{"op": "whole", "cs": R(all), "b": B(b)})
					return
				}
				whole(o.cs)
				whole(all)
				part := b[len(o.b):]
				n := c.rng.Intn(4)
				sink := &byteSink{limit: n}
				r := o.st.Follow(ch, sink)
				good := r == (len(part) <= n) && (r && bytes.Equal(sink.b, part) || !r && len(part) > n && bytes.Equal(sink.b, part[:n+1]))
				o.ok = false
				c.Seq(good, Ev{"op": "refuse1", "id": i, "c": int(ch), "n": n, "got": B(sink.b), "r": r})
				if !good {
					return
				}
			}
		}
	}
	r.suiteRunEvery("sessions", "TraceUtfc", r.pick(12000, 250000), 8, r.pick(12000, 250000)/70, func(c *Ctx) {
		var texts [][]rune
		for i := 0; i < 2; i++ {
			texts = append(texts, randText(c.rng, 1+c.rng.Intn(8)))
		}
		if c.rng.Intn(2) == 0 {
			texts = append(texts, append([]rune{}, append(vs[c.rng.Intn(len(vs))].Path, randText(c.rng, 2)...)...))
		}
		c.r.seen(hashBytes([]byte(str(texts[0])+str(texts[1]))), true)
		session(c, texts)
	})
	longTexts(r, longSteps)
	// (2) in every state: one character more, copies of the state, and the follower that refuses
	r.suiteRunEvery("states", "TraceUtfc", len(vs), 8, 50, func(c *Ctx) {
		v := vs[c.idx]
		c.maxSamp = 4
		s := uState{v.Offs, v.Aux, v.Long}
		st := stateAt(v.Path)
		base := dawg.UtfcEncode(str(v.Path))
		c.r.seen(uint64(v.Offs)<<32|uint64(v.Aux)<<1, true)
		cp := dawg.NewUtfcState()
		es := edgesOf(c.rng, s, r.pick(30, 600))
		prev := es[0]
		for _, ch := range es {
			all := append(append([]rune{}, v.Path...), ch, prev)
			b := dawg.UtfcEncode(str(all))
			cp.Copy(st)
			sink := &byteSink{limit: -1}
			r1 := cp.Follow(ch, sink)
			n1 := len(sink.b)
			r2 := cp.Follow(prev, sink)
			good := r1 && r2 && bytes.Equal(append(append([]byte{}, base...), sink.b...), b) && n1 > 0
			ch1, pr := ch, prev
			c.Obs(good, func() []Ev {
				return []Ev{{"op": "reset"}, {"op": "state", "id": 0}, {"op": "whole", "cs": R(v.Path), "b": B(base)},
					{"op": "whole", "cs": R(all), "b": B(b)},
					{"op": "round", "cs": []bool{true, true}, "back": []bool{r1, r2}},
					{"op": "whole", "cs": R(all[:len(v.Path)+1]), "b": B(append(append([]byte{}, base...), sink.b[:n1]...))},
					{"op": "whole", "cs": R(all), "b": B(append(append([]byte{}, base...), sink.b...))}}
			})
			_ = ch1
			_ = pr
			prev = ch
			// refusing
			n := c.rng.Intn(len(b) + 2)
			sk := &byteSink{limit: n}
			rr := dawg.UtfcFollow(str(all), sk)
			okk := rr == (len(b) <= n) && (rr && bytes.Equal(sk.b, b) || !rr && bytes.Equal(sk.b, b[:n+1]))
			c.Obs(okk, func() []Ev {
				return []Ev{{"op": "reset"}, {"op": "whole", "cs": R(all), "b": B(b)}, {"op": "refuse", "cs": R(all), "n": n, "got": B(sk.b), "r": rr}}
			})
		}
	})
	// (3) prefixes of texts, every refusing position
	r.suiteRunEvery("texts", "TraceUtfc", r.pick(20000, 400000), 8, r.pick(20000, 400000)/80, func(c *Ctx) {
		c.maxSamp = 10
		cs := randText(c.rng, 1+c.rng.Intn(10))
		b := dawg.UtfcEncode(str(cs))
		c.r.seen(hashBytes([]byte(str(cs))), len(cs) > 1)
		for n := 0; n <= len(b)+1; n++ {
			sk := &byteSink{limit: n}
			rr := dawg.UtfcFollow(str(cs), sk)
			okk := rr == (len(b) <= n) && (rr && bytes.Equal(sk.b, b) || !rr && bytes.Equal(sk.b, b[:min(n+1, len(b))]))
			c.Obs(okk, func() []Ev {
				return []Ev{{"op": "reset"}, {"op": "whole", "cs": R(cs), "b": B(b)}, {"op": "refuse", "cs": R(cs), "n": n, "got": B(sk.b), "r": rr}}
			})
		}
		for i := 0; i < len(cs); i++ {
			p := dawg.UtfcEncode(str(cs[:i]))
			c.Obs(bytes.HasPrefix(b, p), func() []Ev {
				return []Ev{{"op": "reset"}, {"op": "whole", "cs": R(cs), "b": B(b)}, {"op": "whole", "cs": R(cs[:i]), "b": B(p)}}
			})
		}
		// byte prefix only if a prefix: another text that leaves this one somewhere
		o := append([]rune{}, cs[:c.rng.Intn(len(cs)+1)]...)
		o = append(o, randText(c.rng, 1+c.rng.Intn(3))...)
		q := dawg.UtfcEncode(str(o))
		good := bytes.HasPrefix(q, b) == strings.HasPrefix(str(o), str(cs)) && bytes.HasPrefix(b, q) == strings.HasPrefix(str(cs), str(o))
		c.Obs(good, func() []Ev {
			return []Ev{{"op": "reset"}, {"op": "whole", "cs": R(cs), "b": B(b)}, {"op": "whole", "cs": R(o), "b": B(q)}}
		})
	})
	// (4) byte prefixes among all characters after a string
	r.suiteRunEvery("allchars", "TraceUtfc", r.pick(6, 120), 8, 1, func(c *Ctx) {
		v := vs[c.rng.Intn(len(vs))]
		if c.idx == 0 {
			v = uVec{}
		}
		c.maxSamp = 10
		seen := make(map[string]rune, 1<<21)
		one := func(ch rune) []byte { return dawg.UtfcEncode(str(append(append([]rune{}, v.Path...), ch))) }
		base := len(dawg.UtfcEncode(str(v.Path)))
		for ch := rune(0); ch <= 0x10ffff; ch++ {
			if scalar(int(ch)) {
				seen[string(one(ch))] = ch
			}
		}
		for ch := rune(0); ch <= 0x10ffff; ch++ {
			if !scalar(int(ch)) {
				continue
			}
			b := one(ch)
			good := true
			var o rune
			for i := base + 1; i <= len(b); i++ {
				if x, ok := seen[string(b[:i])]; ok && x != ch {
					good, o = false, x
				}
			}
			c.Obs(good, func() []Ev {
				c1, c2 := append(append([]rune{}, v.Path...), o), append(append([]rune{}, v.Path...), ch)
				return []Ev{{"op": "reset"}, {"op": "whole", "cs": R(c2), "b": B(b)}, {"op": "whole", "cs": R(c1), "b": B(one(o))}}
			})
		}
	})
}
