package main

// Generators of lexicons and probes.

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/deNULL/dawg"
)

var edgeBytes = []byte{1, 2, 3, 8, 9, 31, 32, 63, 64, 'a', 'b', 'c', 126, 127, 128, 129, 191, 192, 223, 224, 253, 254, 255}

func pickAlphabet(rng *rand.Rand, n int) []byte {
	m := map[byte]bool{}
	contiguous := rng.Intn(3) == 0
	twins := rng.Intn(5) == 0 // bytes that differ in one bit
	last := byte(0)
	start := byte(1 + rng.Intn(255-n))
	for len(m) < n {
		if twins && len(m) > 0 {
			if b := last ^ 0x80; b != 0 && !m[b] && rng.Intn(4) > 0 {
				m[b] = true
			} else {
				last = byte(1 + rng.Intn(255))
				m[last] = true
			}
		} else if contiguous {
			m[start] = true
			start++
		} else if rng.Intn(2) == 0 {
			m[edgeBytes[rng.Intn(len(edgeBytes))]] = true
		} else {
			m[byte(1+rng.Intn(255))] = true
		}
	}
	var r []byte
	for b := range m {
		r = append(r, b)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func randKey(rng *rand.Rand, alpha []byte, maxLen int) []byte {
	n := rng.Intn(maxLen + 1)
	k := make([]byte, n)
	for i := range k {
		k[i] = alpha[rng.Intn(len(alpha))]
	}
	return k
}

var stems = []string{"act", "add", "appl", "base", "bind", "book", "build", "call", "can", "cat", "check", "code", "dawg", "dict", "edit", "fact", "find", "form", "graph", "guid", "hash", "index", "insert", "key", "label", "leaf", "link", "list", "load", "mark", "merg", "node", "offset", "path", "point", "prefix", "quer", "rank", "read", "rout", "save", "search", "sort", "stat", "store", "tabl", "test", "trac", "tree", "unit", "valu", "walk", "word", "writ"}
var endings = []string{"", "s", "e", "es", "ed", "er", "ers", "ing", "ings", "ion", "ions", "able", "ability", "less", "lessly", "ful", "fully", "ly", "ness", "nesses", "ish", "ize", "izer", "izing", "ization", "izations"}
var pres = []string{"", "re", "un", "de", "in", "over", "pre", "mis", "non"}

const (
	kTiny = iota
	kAlpha
	kBytes
	kWords
	kWide
	kLong
	kNum
	kChain
	kComb
	kSuffix
	kBlocks
	kKinds
)

// keysOf makes about n keys of a kind.
func keysOf(rng *rand.Rand, kind, n int) [][]byte {
	var ks [][]byte
	add := func(k []byte) { ks = append(ks, append([]byte{}, k...)) }
	switch kind {
	case kTiny:
		alpha := pickAlphabet(rng, 2+rng.Intn(2))
		for i := 0; i < n && i < 12; i++ {
			add(randKey(rng, alpha, 3))
		}
	case kAlpha:
		alpha := pickAlphabet(rng, 2+rng.Intn(4))
		ml := 2 + rng.Intn(6)
		for i := 0; i < n; i++ {
			add(randKey(rng, alpha, ml))
		}
	case kBytes:
		ml := 1 + rng.Intn(8)
		for i := 0; i < n; i++ {
			k := make([]byte, rng.Intn(ml+1))
			for j := range k {
				k[j] = byte(1 + rng.Intn(255))
			}
			add(k)
		}
	case kWords:
		for i := 0; i < n; i++ {
			add([]byte(pres[rng.Intn(len(pres))] + stems[rng.Intn(len(stems))] + endings[rng.Intn(len(endings))]))
		}
	case kWide:
		m := 1 + rng.Intn(255)
		if rng.Intn(3) == 0 {
			m = 255
		}
		perm := rng.Perm(255)[:m]
		tails := [][]byte{{}, {'x'}, {'x', 'y'}, {255}, {1, 1}}
		deep := rng.Intn(2) == 0
		for i, b := range perm {
			if i > n {
				break
			}
			t := tails[rng.Intn(len(tails))]
			k := append([]byte{}, byte(b+1))
			if deep {
				k = append([]byte{byte(1 + rng.Intn(3))}, k...)
			}
			add(append(k, t...))
		}
	case kLong:
		m := 2 + rng.Intn(5)
		l := 20 + rng.Intn(400)
		alpha := pickAlphabet(rng, 1+rng.Intn(5))
		base := make([]byte, l)
		for j := range base {
			base[j] = alpha[rng.Intn(len(alpha))]
		}
		for i := 0; i < m; i++ {
			k := append([]byte{}, base...)
			for e := 0; e < 1+rng.Intn(2); e++ {
				k[rng.Intn(len(k))] = byte(1 + rng.Intn(255))
			}
			add(k[:1+rng.Intn(l)])
			add(k)
		}
	case kNum:
		w := len(fmt.Sprint(n))
		step := 1 + rng.Intn(4)
		for i := 0; i < n; i++ {
			add([]byte(fmt.Sprintf("%0*d", w+1, i*step)))
		}
	case kChain:
		alpha := pickAlphabet(rng, 1+rng.Intn(2))
		l := n
		if l > 300 {
			l = 300
		}
		k := make([]byte, 0, l)
		for i := 0; i <= l; i++ {
			if rng.Intn(4) > 0 {
				add(k)
			}
			k = append(k, alpha[rng.Intn(len(alpha))])
		}
		add(k)
	case kComb: // many heads, the same tails
		alpha := pickAlphabet(rng, 3+rng.Intn(5))
		var tails [][]byte
		for i := 0; i < 2+rng.Intn(6); i++ {
			tails = append(tails, randKey(rng, alpha, 5))
		}
		for i := 0; i < n/len(tails)+1; i++ {
			h := randKey(rng, alpha, 4)
			for _, t := range tails {
				if rng.Intn(8) > 0 {
					add(append(append([]byte{}, h...), t...))
				}
			}
		}
	case kSuffix:
		alpha := pickAlphabet(rng, 2+rng.Intn(3))
		w := make([]byte, n)
		for i := range w {
			w[i] = alpha[rng.Intn(len(alpha))]
		}
		for i := range w {
			e := len(w)
			if e > i+12 {
				e = i + 12
			}
			add(w[i:e])
		}
	case kBlocks:
		w := 3 + rng.Intn(4)
		for i := 0; i < n; i++ {
			k := make([]byte, w+rng.Intn(3))
			for j := range k {
				if j < 2 {
					k[j] = byte(1 + rng.Intn(60))
				} else {
					k[j] = byte(1 + rng.Intn(255))
				}
			}
			add(k)
		}
	}
	return ks
}

const vKinds = 12

func valueOf(rng *rand.Rand, kind, i int, k []byte) int32 {
	switch kind {
	case 0:
		return 0
	case 1:
		return int32(rng.Intn(3))
	case 2:
		return int32(i)
	case 3: // low byte looks like a label
		if len(k) > 0 {
			return int32(k[rng.Intn(len(k))]) | int32(rng.Intn(4))<<8
		}
		return int32(rng.Intn(256))
	case 4:
		return 0x7fffffff - int32(rng.Intn(3))
	case 5:
		return int32(rng.Intn(1 << 30))
	case 6:
		return int32(rng.Intn(5)) << 8
	case 7:
		return 1 << uint(rng.Intn(31))
	case 8:
		return int32(len(k))
	case 10: // pairs that differ in the highest bit only
		return int32(rng.Intn(60)) | int32(rng.Intn(2))<<30
	case 11: // as one, but for a bit
		return int32(i&7) ^ int32(rng.Intn(2))<<uint(rng.Intn(31))
	default:
		return int32(rng.Intn(10)) * int32(rng.Intn(10)) * 1000003
	}
}

func genLex(rng *rand.Rand, kind, n int) Lex {
	ks := keysOf(rng, kind, n)
	if rng.Intn(4) == 0 {
		ks = append(ks, []byte{})
	}
	vk := rng.Intn(vKinds)
	var es []Entry
	for i, k := range ks {
		es = append(es, Entry{k, valueOf(rng, vk, i, k)})
	}
	L := normal(es)
	if vk == 2 && rng.Intn(2) == 0 {
		for i := range L {
			L[i].V = int32(i)
		}
	}
	return L
}

// smallLex is a lexicon that fits into a trace whole.
func smallLex(rng *rand.Rand) Lex {
	switch rng.Intn(10) {
	case 0:
		return genLex(rng, kTiny, 1+rng.Intn(12))
	case 1:
		return genLex(rng, kChain, 2+rng.Intn(10))
	case 2:
		return genLex(rng, kComb, 4+rng.Intn(30))
	case 3:
		return genLex(rng, kWords, 1+rng.Intn(30))
	case 4:
		return genLex(rng, kBytes, rng.Intn(20))
	case 5:
		return genLex(rng, kWide, 1+rng.Intn(40))
	default:
		return genLex(rng, kAlpha, rng.Intn(40))
	}
}

// mediumLex: up to a few thousand keys, all kinds.
func mediumLex(rng *rand.Rand) Lex {
	kind := rng.Intn(kKinds)
	n := 1 << uint(3+rng.Intn(10))
	n += rng.Intn(n)
	if kind == kLong {
		n = 10
	}
	return genLex(rng, kind, n)
}

// probes makes byte strings worth asking about.
func probes(rng *rand.Rand, L Lex, max int) [][]byte {
	var ps [][]byte
	add := func(k []byte) { ps = append(ps, append([]byte{}, k...)) }
	add(nil)
	add([]byte{0})
	for i := 0; i < 3; i++ {
		add([]byte{byte(rng.Intn(256))})
	}
	for len(ps) < max {
		if len(L) == 0 {
			add(randKey(rng, edgeBytes, 4))
			continue
		}
		k := L[rng.Intn(len(L))].K
		switch rng.Intn(10) {
		case 0, 1:
			add(k)
		case 2:
			add(k[:rng.Intn(len(k)+1)])
		case 3:
			add(append(append([]byte{}, k...), byte(rng.Intn(256))))
		case 4:
			add(append(append([]byte{}, k...), 0))
		case 5:
			if len(k) > 0 {
				m := append([]byte{}, k...)
				m[rng.Intn(len(m))] = byte(rng.Intn(256))
				add(m)
			}
		case 6:
			if len(k) > 0 {
				i := rng.Intn(len(k))
				add(append(append([]byte{}, k[:i]...), k[i+1:]...))
			}
		case 7:
			j := L[rng.Intn(len(L))].K
			add(append(append([]byte{}, k[:rng.Intn(len(k)+1)]...), j[rng.Intn(len(j)+1):]...))
		case 8:
			v := L[rng.Intn(len(L))].V
			add(append(append([]byte{}, k[:rng.Intn(len(k)+1)]...), byte(v), byte(v>>8)))
		case 9:
			i := rng.Intn(len(k) + 1)
			m := append(append([]byte{}, k[:i]...), byte(rng.Intn(256)))
			add(append(m, k[i:]...))
		}
	}
	return ps
}

// somePositions: prefixes of keys (positions of the dictionary).
func somePositions(rng *rand.Rand, L Lex, max int) [][]byte {
	ps := [][]byte{{}}
	seen := map[string]bool{"": true}
	if len(L) == 0 {
		return ps
	}
	for i := 0; i < max*3 && len(ps) < max; i++ {
		k := L[rng.Intn(len(L))].K
		p := k[:rng.Intn(len(k)+1)]
		if !seen[string(p)] {
			seen[string(p)] = true
			ps = append(ps, append([]byte{}, p...))
		}
	}
	return ps
}

func allPositions(L Lex, limit int) [][]byte {
	ps := [][]byte{{}}
	var prev []byte
	for _, e := range L {
		n := 0
		for n < len(prev) && n < len(e.K) && prev[n] == e.K[n] {
			n++
		}
		for j := n + 1; j <= len(e.K); j++ {
			ps = append(ps, e.K[:j])
		}
		prev = e.K
		if len(ps) > limit {
			break
		}
	}
	return ps
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// bigLex makes a lexicon whose dictionary has more than 2^21 units (where offsets need their extended form).
// Some of its keys share endings, so that shared states are linked from far away.
func bigLex(rng *rand.Rand, n int) Lex {
	var tails [][]byte
	for i := 0; i < 300; i++ {
		tails = append(tails, randKey(rng, []byte("aeiostnr"), 5))
	}
	var es []Entry
	for i := 0; i < n; i++ {
		var k []byte
		k = append(k, byte(1+rng.Intn(255)), byte(1+rng.Intn(255)))
		m := 4 + rng.Intn(5)
		for j := 0; j < m; j++ {
			k = append(k, byte(1+rng.Intn(255)))
		}
		var v int32
		switch rng.Intn(4) {
		case 0:
			v = int32(rng.Intn(1 << 30))
		case 1:
			k = append(k[:len(k)-2], tails[rng.Intn(len(tails))]...)
			v = 7
		default:
			v = int32(i)
		}
		es = append(es, Entry{k, v})
	}
	// wide and long ones
	for b := 1; b < 256; b++ {
		es = append(es, Entry{[]byte{77, byte(b)}, int32(b)})
		es = append(es, Entry{[]byte{77, 78, byte(b), 'q'}, 3})
	}
	for i := 0; i < 3; i++ {
		k := make([]byte, 12000)
		for j := range k {
			k[j] = byte(1 + rng.Intn(3))
		}
		es = append(es, Entry{append([]byte{byte(5 + 80*i)}, k...), int32(i)})
	}
	// families of endings that meet again across the whole array
	es = append(es, reachLex(rng, n/3)...)
	return normal(es)
}

// longKeys: lengths around powers of two, up to more than sixteen bits; the keys share beginnings and endings.
func longKeys(rng *rand.Rand, i int) Lex {
	lens := []int{250, 254, 255, 256, 257, 260, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000, 131072, 150000}
	l := lens[(i*5+rng.Intn(5))%len(lens)]
	if i%4 == 3 {
		l = lens[rng.Intn(18)] + rng.Intn(3)
	}
	alpha := pickAlphabet(rng, 1+rng.Intn(6))
	if rng.Intn(3) == 0 {
		alpha = []byte{1, 2, 3, 97, 98, 127, 128, 200, 254, 255}
	}
	base := make([]byte, l+4)
	for j := range base {
		base[j] = alpha[rng.Intn(len(alpha))]
	}
	es := []Entry{{base[:l], 3}}
	for j := 0; j < 2+rng.Intn(5); j++ {
		d := l - 3 + rng.Intn(7)
		es = append(es, Entry{base[:d], int32(rng.Intn(4))})
	}
	for j := 0; j < 5; j++ {
		m := rng.Intn(l)
		k := append(append([]byte{}, base[:m]...), byte(1+rng.Intn(255)))
		es = append(es, Entry{k, int32(rng.Intn(1 << 20))})
		es = append(es, Entry{append(k, base[l-rng.Intn(l):l]...), 3})
	}
	if rng.Intn(2) == 0 {
		es = append(es, Entry{append([]byte{255}, base[:l]...), 3})
	}
	return normal(es)
}

// blockLex: few branches and hardly any sharing, so that units and offsets of a block are used up together.
func blockLex(rng *rand.Rand) Lex {
	n := 256*(1+rng.Intn(2)) - 10 + rng.Intn(14)
	alpha := []byte{1, 2, 3, 4, 5, 6, 7, 8}[:1+rng.Intn(8)]
	switch rng.Intn(4) {
	case 0:
		alpha = pickAlphabet(rng, 1+rng.Intn(6))
	case 1:
		alpha = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
	}
	var es []Entry
	m := 1 + rng.Intn(4)
	if rng.Intn(3) == 0 {
		m = 8 << rng.Intn(4)
	}
	for i := 0; i < m; i++ {
		k := make([]byte, n/m)
		for j := range k {
			k[j] = alpha[rng.Intn(len(alpha))]
		}
		if i > 0 {
			k[0] = byte(i + 1)
		}
		es = append(es, Entry{k, int32(i)}) // values differ: nothing is shared
	}
	return normal(es)
}

// unitsLex: a lexicon whose dictionary has exactly (or nearly, when that cannot be had) the given number of units.
func unitsLex(rng *rand.Rand, units int) Lex {
	m := map[string]int32{}
	for n := 0; n*7 < units+256*8; n++ {
		k := make([]byte, 3+rng.Intn(9))
		for j := range k {
			k[j] = byte(1 + rng.Intn(255))
			if rng.Intn(3) == 0 {
				k[j] = byte('a' + rng.Intn(4))
			}
		}
		m[string(k)] = int32(rng.Intn(1 << 20))
	}
	var all Lex
	for k, v := range m {
		all = append(all, Entry{[]byte(k), v})
	}
	sort.Slice(all, func(i, j int) bool { return bytes.Compare(all[i].K, all[j].K) < 0 })
	size := func(n int) int {
		b := dawg.NewDawgBuilder()
		for _, e := range all[:n] {
			b.InsertKeyValue(e.K, len(e.K), e.V)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		return a.Build().Size()
	}
	n := sort.Search(len(all), func(i int) bool { return size(i) >= units })
	if n > len(all) {
		n = len(all)
	}
	return all[:n]
}

var roundUnits = []int{256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144}

// aroundUnits is one of the round numbers of units, a block less or a block more.
func aroundUnits(i int) int {
	return roundUnits[i/3%len(roundUnits)] + []int{0, 256, -256}[i%3]
}

// mergingLex: n states of their own, each reached in several ways.
func mergingLex(rng *rand.Rand, n int) Lex {
	var es []Entry
	for i := 0; i < n; i++ {
		for j := 0; j < 2+rng.Intn(2); j++ {
			k := []byte{byte('a' + j), byte(1 + i/4/251/251), byte(1 + i/4/251%251), byte(1 + i/4%251), byte(1 + j*60 + 10*(i%4)), 'x'}
			es = append(es, Entry{k, int32(i)})
		}
	}
	return normal(es)
}

// edgeLex: the first branch of the root takes about 2^21 units, the others are small; so the children of some branch
// or other come to lie exactly 2^21 units away from it.
func edgeLex(rng *rand.Rand) Lex {
	var fill []Entry
	for i := 0; i < 190000; i++ {
		k := []byte{1, byte(1 + i>>16), byte(1 + (i>>8&255)%255), byte(1 + i%255)}
		for j := 0; j < 10; j++ {
			k = append(k, byte(1+rng.Intn(255)))
		}
		fill = append(fill, Entry{k, int32(rng.Intn(1 << 30))})
	}
	fill = normal(fill)
	n := len(fill)
	for try := 0; try < 2; try++ {
		a, _ := buildAuto(fill[:n])
		d := a.Build()
		if d == nil {
			break
		}
		n = int(float64(n) * float64(1<<21-1024) / float64(d.Size()))
		if n > len(fill) {
			n = len(fill)
		}
	}
	es := fill[:n:n]
	for b := 2; b < 256; b++ {
		k := []byte{byte(b)}
		for j := 0; j < 26; j++ {
			k = append(k, byte(1+rng.Intn(255)))
		}
		es = append(es, Entry{k, int32(rng.Intn(1 << 30))})
	}
	return normal(es)
}
