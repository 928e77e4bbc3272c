package main

// C20: the files dawgtool makes, part by part, and what it says about them.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
)

func init() { checks["C20"] = checkReport }

var reportNames = map[string]string{"no. keys": "keys", "no. states": "states", "no. transitions": "transitions", "no. merged states": "mstates",
	"no. merging states": "merging", "no. merged transitions": "mtransitions", "no. elements": "units", "no. unused elements": "unused",
	"dictionary size": "dict", "no. units": "gunits", "guide size": "guide", "no. index units": "iunits", "index size": "index"}

// parseReport takes the last number said of each thing; -1: nothing was said.
func parseReport(s []byte) map[string]int {
	r := map[string]int{"percent": -1}
	for _, n := range reportNames {
		r[n] = -1
	}
	for _, l := range strings.Split(string(s), "\n") {
		i := strings.Index(l, ": ")
		if i < 0 {
			continue
		}
		name := reportNames[l[:i]]
		if name == "" {
			continue
		}
		rest := l[i+2:]
		if j := strings.IndexByte(rest, ' '); j >= 0 {
			t := strings.TrimSpace(rest[j:])
			rest = rest[:j]
			if name == "unused" && strings.HasPrefix(t, "(") && strings.HasSuffix(t, "%)") {
				if f, err := strconv.ParseFloat(t[1:len(t)-2], 64); err == nil && f >= 0 && f <= 1000 {
					r["percent"] = int(math.Round(f * 100))
				}
			}
		}
		n, err := strconv.Atoi(rest)
		if err != nil || n < 0 || n > 1<<30 {
			n = -2
		}
		r[name] = n
	}
	return r
}

// split takes the file apart: sizes of the bodies, the parts, and the bytes that are left (-1: a part is not whole).
func split(b []byte, parts int) (sizes []int, ps [][]byte, left int) {
	sizes = []int{}
	for i := 0; i < parts; i++ {
		if len(b) < 4 {
			return sizes, ps, -1
		}
		n := int(binary.LittleEndian.Uint32(b))
		u := 4
		if i == 1 {
			u = 2
		}
		if n > len(b) || 4+n*u > len(b) {
			return sizes, ps, -1
		}
		sizes = append(sizes, n*u)
		ps = append(ps, b[:4+n*u])
		b = b[4+n*u:]
	}
	return sizes, ps, len(b)
}

func reportOne(c *Ctx, o tOpts, lines []tLine) {
	ok, L := o.built(lines)
	if !ok {
		return
	}
	texts := 0
	for _, x := range lines {
		if !x.blank && (o.Tab || x.k != "") {
			texts++
		}
	}
	var es []Entry
	for _, e := range L {
		es = append(es, Entry{o.stored(string(e.K)), e.V})
	}
	T := normal(es) // as stored
	z := sizesOf(T)
	h := fnv.New64a()
	fmt.Fprint(h, o, lines)
	c.r.seen(h.Sum64(), len(lines) > 1)
	x := newTool(c, o)
	defer x.close()
	x.writeLines("lex", lines)
	one := func(g, r, i bool, name string) [][]byte {
		x.o.Guide, x.o.Ranked, x.o.Index = g, r, i
		if c.rng.Intn(4) == 0 {
			os.WriteFile(x.path(name), make([]byte, c.rng.Intn(60000)), 0o644)
		}
		st, so := x.exec(true, x.path("lex"), x.path(name), -1)
		b, err := os.ReadFile(x.path(name))
		if st != 0 || err != nil {
			c.Obs(false, func() []Ev { return []Ev{{"op": "toolfailed", "status": st, "o": x.o, "lines": x.o.linesEv(lines)}} })
			return nil
		}
		rep := parseReport(so)
		guide := g || r
		n := 1
		if guide {
			n++
		}
		if guide && i {
			n++
		}
		sizes, ps, left := split(b, n)
		good := left == 0 && len(sizes) == n && rep["dict"] == sizes[0] && rep["dict"] == 4*rep["units"] &&
			(!guide || rep["guide"] == sizes[1] && rep["guide"] == 2*rep["gunits"]) &&
			(!(guide && i) || rep["index"] == sizes[2] && rep["index"] == 4*rep["iunits"])
		c.Obs(good, func() []Ev {
			return []Ev{{"op": "parts", "left": left, "sizes": sizes, "guide": guide, "index": i, "r": rep}}
		})
		if left != 0 {
			return nil
		}
		F, _ := units32(ps[0])
		f := &files{F: F}
		unused := len(F) - f.used()
		good = rep["keys"] == texts && rep["states"] == z.States && rep["transitions"] == z.Transitions && rep["mstates"] == z.MergedStates &&
			rep["merging"] == z.MergingStates && rep["mtransitions"] == z.MergedTransitions && rep["units"] == len(F) && rep["unused"] == unused
		d := rep["percent"]*rep["units"] - 10000*rep["unused"]
		good = good && 2*d <= rep["units"]+2 && -2*d <= rep["units"]+2
		if len(T) <= 60 && len(F) <= 1024 {
			c.Obs(good, func() []Ev {
				return []Ev{{"op": "lexicon", "below": 0, "total": len(T), "win": T.json()},
					{"op": "report", "lines": texts, "units": in4(ps[0]), "r": rep}}
			})
		} else {
			c.Obs(good, func() []Ev {
				return []Ev{{"op": "reportlarge", "lines": texts, "units": len(F), "unused": unused, "r": rep,
					"z": z}}
			})
		}
		return ps
	}
	a := one(true, false, true, "gi")
	b := one(c.rng.Intn(3) == 0, true, true, "ri")
	if a != nil && b != nil {
		judgeFiles(c, T, parse(a[0], a[1], b[1], a[2], b[2]), -1, 20000)
	}
	if len(c.sus) > 0 {
		return
	}
	// fewer parts
	if p := one(false, false, c.rng.Intn(2) == 0, "d"); p != nil && a != nil && b != nil && string(p[0]) != string(a[0]) {
		judgeFiles(c, T, parse(p[0], a[1], b[1], a[2], b[2]), -1, 20000)
	}
	g := c.rng.Intn(2) == 0
	if p := one(g, !g, false, "g"); p != nil && a != nil && b != nil && (string(p[0]) != string(a[0]) || g && string(p[1]) != string(a[1]) || !g && string(p[1]) != string(b[1])) {
		if g {
			judgeFiles(c, T, parse(p[0], p[1], b[1], a[2], b[2]), -1, 20000)
		} else {
			judgeFiles(c, T, parse(p[0], a[1], p[1], a[2], b[2]), -1, 20000)
		}
	}
}

func checkReport(r *Run) {
	// the lexicon files of spec/GenTool.tla
	raw := toolRaw()
	rand.New(rand.NewSource(r.seed)).Shuffle(len(raw), func(i, j int) { raw[i], raw[j] = raw[j], raw[i] })
	if n := r.pick(1200, 40000); len(raw) > n {
		raw = raw[:n]
	}
	r.suiteRunEvery("vec", "TraceFormat", len(raw), 8, len(raw)/40+1, func(c *Ctx) {
		var v toolVec
		if err := json.Unmarshal(raw[c.idx], &v); err != nil {
			die("bad vector: %v", err)
		}
		mp := letterMaps[c.rng.Intn(2)]
		var lines []tLine
		for _, l := range v.Lines {
			x := tLine{v: l.V, blank: l.Blank}
			for _, b := range l.K {
				x.k += mp[b-97]
			}
			if l.Big {
				x.v = 1 << 40
			}
			lines = append(lines, x)
		}
		reportOne(c, v.O, lines)
	})
	r.suiteRunEvery("report", "TraceFormat", r.pick(700, 12000), 8, 12, func(c *Ctx) {
		o := randOpts(c.rng)
		o.Guide, o.Ranked, o.Index = false, false, false
		n := c.rng.Intn(14)
		if c.rng.Intn(6) == 0 {
			n = c.rng.Intn(150)
		}
		reportOne(c, o, toolLines(c.rng, o, n))
	})
	r.suiteRunEvery("shapes", "TraceFormat", r.pick(260, 3000), 8, 1000, func(c *Ctx) {
		c.sampled = false
		o := tOpts{Tab: c.rng.Intn(5) > 0, Sort: c.rng.Intn(2) == 0, Utfc: c.rng.Intn(5) == 0}
		reportOne(c, o, shapedLines(c.rng, o, c.idx))
	})
	sizes := []int{2000, 9999, 10000, 20001, 1<<16 + 7}
	r.suiteRunEvery("large", "TraceFormat", r.pick(5, 30), 5, 1000, func(c *Ctx) {
		c.sampled = false
		o := tOpts{Tab: c.idx%2 == 0, Sort: c.rng.Intn(2) == 0, Utfc: c.rng.Intn(3) == 0}
		var lines []tLine
		for len(lines) < sizes[c.idx%5] {
			k := pres[c.rng.Intn(len(pres))] + stems[c.rng.Intn(len(stems))] + endings[c.rng.Intn(len(endings))] + strconv.Itoa(c.rng.Intn(30000))
			lines = append(lines, tLine{k: k, v: int64(c.rng.Intn(50))})
		}
		if !o.Sort {
			sort.SliceStable(lines, func(i, j int) bool { return string(o.stored(lines[i].k)) < string(o.stored(lines[j].k)) })
		}
		reportOne(c, o, lines)
	})
}
