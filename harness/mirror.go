package main

// The driver's copy of the abstract lexicon of spec/Lexicon.tla (see rec.go for what it is used for).

import (
	"bytes"
	"hash/fnv"
	"sort"
)

type Entry struct {
	K []byte
	V int32
}
type Lex []Entry

func (L Lex) lower(k []byte) int { // number of entries below k
	return sort.Search(len(L), func(i int) bool { return bytes.Compare(L[i].K, k) >= 0 })
}
func (L Lex) find(k []byte) int32 {
	i := L.lower(k)
	if i < len(L) && bytes.Equal(L[i].K, k) {
		return L[i].V
	}
	return -1
}
func (L Lex) under(p []byte) (int, int) {
	lo := L.lower(p)
	hi := lo + sort.Search(len(L)-lo, func(i int) bool { return !bytes.HasPrefix(L[lo+i].K, p) })
	return lo, hi
}
func (L Lex) isPos(p []byte) bool {
	if len(p) == 0 {
		return true
	}
	i := L.lower(p)
	return i < len(L) && bytes.HasPrefix(L[i].K, p)
}
func common(a, b []byte) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}
func (L Lex) matched(s []byte) int {
	i, n := L.lower(s), 0
	if i < len(L) {
		n = common(s, L[i].K)
	}
	if i > 0 {
		if m := common(s, L[i-1].K); m > n {
			n = m
		}
	}
	return n
}
func (L Lex) rank(k []byte) int {
	i := L.lower(k)
	if i < len(L) && bytes.Equal(L[i].K, k) {
		return i
	}
	return -1
}
func storable(k []byte, v int32) bool { return v >= 0 && bytes.IndexByte(k, 0) < 0 }
func (L Lex) accepts(k []byte, v int32) bool {
	return storable(k, v) && (len(L) == 0 || bytes.Compare(L[len(L)-1].K, k) <= 0)
}
func (L Lex) insert(k []byte, v int32) Lex {
	if len(L) > 0 && bytes.Equal(L[len(L)-1].K, k) {
		L2 := append(Lex{}, L...)
		L2[len(L)-1].V = v
		return L2
	}
	return append(L[:len(L):len(L)], Entry{append([]byte{}, k...), v})
}
func (L Lex) hash() uint64 {
	h := fnv.New64a()
	for _, e := range L {
		h.Write(e.K)
		h.Write([]byte{0, byte(e.V), byte(e.V >> 8), byte(e.V >> 16), byte(e.V >> 24)})
	}
	return h.Sum64()
}
func (L Lex) json() []Ev {
	r := []Ev{}
	for _, e := range L {
		r = append(r, Ev{"k": B(e.K), "v": e.V})
	}
	return r
}

// normal sorts entries and keeps the last value of each key.
func normal(es []Entry) Lex {
	sort.SliceStable(es, func(i, j int) bool { return bytes.Compare(es[i].K, es[j].K) < 0 })
	var L Lex
	for _, e := range es {
		if n := len(L); n > 0 && bytes.Equal(L[n-1].K, e.K) {
			L[n-1].V = e.V
		} else {
			L = append(L, e)
		}
	}
	return L
}

const wholeLimit = 80 // lexicons up to this size are put into traces whole

// lexEv establishes dictionary d as a whole or as a window around k (spec: Decides).
func (L Lex) windowEv(d int, k []byte) Ev {
	if len(L) <= wholeLimit {
		return Ev{"op": "lexicon", "d": d, "below": 0, "total": len(L), "win": L.json()}
	}
	lo, hi := L.lower(k)-1, 0
	_, hi = L.under(k)
	// keep at most a few of those under k: first ones and the one after the last
	if lo < 0 {
		lo = 0
	}
	hi++
	if hi-lo > 8 {
		// Entries under k beyond these do not matter to exact match, prefix and rank queries;
		// but a window is contiguous, so cut after some and rely on DecidesAfter only where it holds.
		hi = lo + 8
	}
	if hi > len(L) {
		hi = len(L)
	}
	return Ev{"op": "lexicon", "d": d, "below": lo, "total": len(L), "win": L[lo:hi].json()}
}
func (L Lex) windowAt(d, i, j int) Ev {
	if len(L) <= wholeLimit {
		return Ev{"op": "lexicon", "d": d, "below": 0, "total": len(L), "win": L.json()}
	}
	if i < 0 {
		i = 0
	}
	if j > len(L) {
		j = len(L)
	}
	return Ev{"op": "lexicon", "d": d, "below": i, "total": len(L), "win": L[i:j].json()}
}
