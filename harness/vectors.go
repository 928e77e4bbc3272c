package main

// Vectors printed by TLC (spec/GenLexicons.tla): every lexicon of a small universe with the answers of
// the specification.  They are replayed into the code, and on the way show that the mirror the driver
// uses as a filter for larger lexicons (mirror.go) gives the answers of the specification.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sync"
)

type vKV struct {
	K []int `json:"k"`
	V int32 `json:"v"`
}
type vNode struct {
	P      []int `json:"p"`
	Labels []int `json:"labels"`
	Val    int32 `json:"val"`
	Under  []vKV `json:"under"`
}
type Vector struct {
	Lex     []vKV   `json:"lex"`
	Find    []int32 `json:"find"`
	Matched []int   `json:"matched"`
	Rank    []int   `json:"rank"`
	Nodes   []vNode `json:"nodes"`
	Sizes   Sizes   `json:"sizes"`
}
type Sizes struct {
	States            int `json:"states"`
	Transitions       int `json:"transitions"`
	MergedTransitions int `json:"mergedTransitions"`
	MergedStates      int `json:"mergedStates"`
	MergingStates     int `json:"mergingStates"`
}
type VecFile struct {
	Probes [][]int
	Vecs   []Vector
	Syms   int
}

var vecCache []*VecFile

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.Exit(4)
}

func loadVectors() []*VecFile {
	if vecCache != nil {
		return vecCache
	}
	for _, fn := range vecFiles {
		f, err := os.Open(fn)
		if err != nil {
			die("%v", err)
		}
		vf := &VecFile{}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		var lines [][]byte
		for sc.Scan() {
			b := sc.Bytes()
			if len(b) < 3 {
				continue
			}
			switch string(b[:3]) {
			case "HDR":
				var h struct {
					Probes [][]int `json:"probes"`
				}
				if json.Unmarshal(b[3:], &h) != nil {
					die("bad header in %s", fn)
				}
				vf.Probes = h.Probes
				for _, p := range h.Probes {
					for _, x := range p {
						if x > vf.Syms {
							vf.Syms = x
						}
					}
				}
			case "VEC":
				lines = append(lines, append([]byte{}, b[3:]...))
			}
		}
		f.Close()
		vf.Vecs = make([]Vector, len(lines))
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < len(lines); i += 8 {
					if err := json.Unmarshal(lines[i], &vf.Vecs[i]); err != nil {
						die("bad vector in %s: %v", fn, err)
					}
				}
			}(w)
		}
		wg.Wait()
		if len(vf.Vecs) == 0 || len(vf.Probes) == 0 {
			die("no vectors in %s", fn)
		}
		vecCache = append(vecCache, vf)
	}
	return vecCache
}

var byteMaps = [][]byte{
	// NUL, symbols in ascending order, and a byte no key uses
	{0, 'a', 'b', 'c', 'z'},
	{0, 1, 2, 3, 4},
	{0, 253, 254, 255, 1},
	{0, 1, 128, 255, 127},
	{0, 127, 128, 129, 255},
}
var valMaps = [][]int32{{0, 1, 2}, {0, 97, 98}, {5, 0x7fffffff, 0}, {256, 1, 3}, {128, 255, 1 << 30}}

func (vf *VecFile) mapped(v *Vector, bm []byte, vm []int32) (Lex, [][]byte) {
	mp := func(s []int) []byte {
		k := make([]byte, len(s))
		for i, x := range s {
			if x == vf.Syms {
				k[i] = bm[4]
			} else {
				k[i] = bm[x]
			}
		}
		return k
	}
	var L Lex
	for _, e := range v.Lex {
		L = append(L, Entry{mp(e.K), vm[e.V]})
	}
	ps := make([][]byte, len(vf.Probes))
	for i, p := range vf.Probes {
		ps[i] = mp(p)
	}
	// The mirror must give the answers of the specification.
	unv := func(x int32) int32 {
		if x < 0 {
			return x
		}
		return vm[x]
	}
	for i, p := range ps {
		if L.find(p) != unv(v.Find[i]) || L.matched(p) != v.Matched[i] || L.rank(p) != v.Rank[i] {
			die("the mirror disagrees with the specification on %v / %v", v.Lex, vf.Probes[i])
		}
	}
	for _, n := range v.Nodes {
		p := mp(n.P)
		lo, hi := L.under(p)
		if hi-lo != len(n.Under) || L.find(p) != unv(n.Val) {
			die("the mirror disagrees with the specification on %v below %v", v.Lex, n.P)
		}
		for i, e := range n.Under {
			if !reflect.DeepEqual(append([]byte{}, L[lo+i].K[len(p):]...), append([]byte{}, mp(e.K)...)) || L[lo+i].V != unv(int32(e.V)) {
				die("the mirror disagrees with the specification on %v below %v", v.Lex, n.P)
			}
		}
	}
	if sizesOf(L) != v.Sizes {
		die("the mirror disagrees with the specification on the sizes of %v: %v, %v", v.Lex, sizesOf(L), v.Sizes)
	}
	return L, ps
}

// vectorSuite replays all vectors.
func vectorSuite(r *Run, f func(c *Ctx, L Lex, ps [][]byte)) {
	for fi, vf := range loadVectors() {
		vf := vf
		suite := fmt.Sprintf("vec%d", fi)
		maps := 2
		if r.thorough() {
			maps = len(byteMaps)
		}
		if r.only == "" {
			r.note("spec_vectors_replayed", int64(len(vf.Vecs)))
		}
		r.suiteRunEvery(suite, "TraceSystem", len(vf.Vecs), 8, 40, func(c *Ctx) {
			c.maxSamp = 12
			v := &vf.Vecs[c.idx]
			first := c.rng.Intn(len(byteMaps))
			for m := 0; m < maps; m++ {
				bm := byteMaps[(first+m)%len(byteMaps)]
				vm := valMaps[c.rng.Intn(len(valMaps))]
				L, ps := vf.mapped(v, bm, vm)
				f(c, L, ps)
			}
		})
	}
}
