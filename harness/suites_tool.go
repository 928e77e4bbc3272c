package main

// C18: runs of the dawgtool program, built from /repo's tree, in scratch directories of their own.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

func init() { checks["C18"] = checkTool }

type tOpts struct {
	Tab    bool `json:"tab"`
	Sort   bool `json:"sort"`
	Guide  bool `json:"guide"`
	Ranked bool `json:"ranked"`
	Index  bool `json:"index"`
	Utfc   bool `json:"utfc"`
}

func (o tOpts) hasGuide() bool { return o.Guide || o.Ranked }
func (o tOpts) hasIndex() bool { return o.Index && o.hasGuide() }

type tLine struct {
	k   string
	v   int64
	raw string // the text after the tab, when it is not the value

	blank bool // an empty line where a tab is expected
}

func runes(k string, o tOpts) []int {
	r := []int{}
	if o.Utfc {
		for _, c := range k {
			r = append(r, int(c))
		}
	}
	return r
}

func (o tOpts) stored(k string) []byte {
	if o.Utfc {
		return uEncode([]rune(k))
	}
	return []byte(k)
}
func (o tOpts) value(x tLine) int32 {
	if !o.Tab || x.v < 0 {
		return 0
	}
	if x.v > 0x7fffffff {
		return 0x7fffffff
	}
	return int32(x.v)
}

// built is Built of spec/Tool.tla.
func (o tOpts) built(lines []tLine) (bool, Lex) {
	var prev []byte
	var es []Entry
	first := true
	for _, x := range lines {
		if !o.Tab && x.k == "" || x.blank {
			continue
		}
		s := o.stored(x.k)
		if bytes.IndexByte(s, 0) >= 0 {
			return false, nil
		}
		if !o.Sort && !first && bytes.Compare(prev, s) > 0 {
			return false, nil
		}
		prev, first = s, false
		es = append(es, Entry{[]byte(x.k), o.value(x)})
	}
	return true, normal(es)
}

type tAnswer struct {
	k    string
	n    int
	list []Entry
}
type tOut struct {
	out     []tAnswer
	total   int
	names   []string
	garbled string
}

func sameSet(a []Entry, L Lex) bool {
	if len(a) != len(L) {
		return false
	}
	m := normal(append([]Entry{}, a...))
	return sameList(m, L)
}
func sameList(a []Entry, L []Entry) bool {
	if len(a) != len(L) {
		return false
	}
	for i := range a {
		if a[i].V != L[i].V || !bytes.Equal(a[i].K, L[i].K) {
			return false
		}
	}
	return true
}

func (o tOpts) expected(L Lex, q string) Lex {
	var w Lex
	if !o.hasGuide() {
		for _, e := range L {
			if strings.HasPrefix(q, string(e.K)) {
				w = append(w, e)
			}
		}
		return w
	}
	lo, hi := L.under([]byte(q))
	return L[lo:hi]
}

func (o tOpts) answerOK(L Lex, q string, a []Entry) bool {
	w := o.expected(L, q)
	if o.hasGuide() && !o.Ranked && !o.Utfc {
		return sameList(a, w)
	}
	if !sameSet(a, w) {
		return false
	}
	if o.Ranked {
		for i := 1; i < len(a); i++ {
			if a[i-1].V < a[i].V {
				return false
			}
		}
	}
	return true
}

func (o tOpts) outOK(L Lex, qs []string, t *tOut) bool {
	if t.garbled != "" || len(t.out) != len(qs) {
		return false
	}
	for i, q := range qs {
		if t.out[i].k != q || !o.answerOK(L, q, t.out[i].list) {
			return false
		}
	}
	if !o.hasIndex() {
		return true
	}
	if t.total != len(L) || len(t.names) != len(L) {
		return false
	}
	ns := append([]string{}, t.names...)
	if o.Ranked || o.Utfc {
		sort.Strings(ns)
	}
	for i := range L {
		if ns[i] != string(L[i].K) {
			return false
		}
	}
	for i, q := range qs {
		n := t.out[i].n
		if L.find([]byte(q)) < 0 {
			if n != -1 {
				return false
			}
		} else if n < 0 || n >= len(L) || t.names[n] != q {
			return false
		}
	}
	return true
}

func parseOut(o tOpts, qs []string, s []byte) *tOut {
	t := &tOut{total: -1, out: []tAnswer{}, names: []string{}}
	bad := func(f string, a ...interface{}) *tOut {
		t.garbled = fmt.Sprintf(f, a...)
		return t
	}
	if len(s) > 0 && s[len(s)-1] != '\n' {
		return bad("the output does not end with a line")
	}
	lines := strings.Split(string(s), "\n")
	lines = lines[:len(lines)-1]
	if len(lines) < len(qs) {
		return bad("%d lines for %d queries", len(lines), len(qs))
	}
	for i, q := range qs {
		l := lines[i]
		if !strings.HasPrefix(l, q+":") {
			return bad("line %d: %.80q for the query %.80q", i, l, q)
		}
		l = l[len(q)+1:]
		a := tAnswer{k: q, n: -9, list: []Entry{}}
		if o.hasIndex() {
			switch {
			case strings.HasPrefix(l, " (not found)"):
				a.n = -1
				l = l[len(" (not found)"):]
			case strings.HasPrefix(l, " (failed)"):
				a.n = -2
				l = l[len(" (failed)"):]
			case strings.HasPrefix(l, " (#"):
				j := strings.IndexByte(l, ')')
				if j < 0 {
					return bad("line %d: %.80q", i, l)
				}
				n, err := strconv.Atoi(l[3:j])
				if err != nil || n > 0x7fffffff {
					return bad("line %d: %.80q", i, l)
				}
				a.n = n
				l = l[j+1:]
			default:
				return bad("no number in line %d: %.80q", i, l)
			}
		}
		for l != "" {
			j := strings.IndexByte(l, ';')
			if j < 0 || l[0] != ' ' {
				return bad("line %d: %.80q", i, l)
			}
			e := l[1:j]
			l = l[j+1:]
			m := strings.Index(e, " = ")
			if m < 0 {
				return bad("line %d: %.80q", i, e)
			}
			v, err := strconv.ParseInt(e[m+3:], 10, 32)
			if err != nil {
				return bad("line %d: %.80q", i, e)
			}
			a.list = append(a.list, Entry{[]byte(e[:m]), int32(v)})
		}
		t.out = append(t.out, a)
	}
	lines = lines[len(qs):]
	if !o.hasIndex() {
		if len(lines) > 0 {
			return bad("further lines: %.80q", lines[0])
		}
		return t
	}
	if len(lines) == 0 || !strings.HasPrefix(lines[0], "Total words: ") {
		return bad("no total")
	}
	n, err := strconv.Atoi(lines[0][len("Total words: "):])
	if err != nil || n > 0x7fffffff {
		return bad("%.80q", lines[0])
	}
	t.total = n
	for i, l := range lines[1:] {
		p := fmt.Sprintf("%d: ", i)
		if !strings.HasPrefix(l, p) {
			return bad("no. %d in the list: %.80q", i, l)
		}
		t.names = append(t.names, l[len(p):])
	}
	return t
}

// toolRun is one dictionary file and what was done to it.
type toolRun struct {
	c     *Ctx
	dir   string
	o     tOpts
	mixed bool // a -l -d style of arguments
}

func (x *toolRun) path(n string) string { return filepath.Join(x.dir, n) }

func (x *toolRun) exec(build bool, lex, dict string, limit int) (int, []byte) {
	var args []string
	flags := []string{}
	if build {
		flags = append(flags, "-b")
	}
	rng := x.c.rng
	both := build || rng.Intn(2) == 0
	add := func(on bool, f string) {
		if on {
			flags = append(flags, f)
		}
	}
	add(x.o.Tab && both, "-t")
	add(x.o.Sort && both, "-s")
	add(x.o.Guide, "-g")
	add(x.o.Ranked, "-r")
	add(x.o.Index, "-i")
	add(x.o.Utfc, "-u")
	rng.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
	args = append(args, flags...)
	switch rng.Intn(4) {
	case 0:
		args = append(args, "-l", lex, "-d", dict)
	case 3:
		args = append(args, "-d", dict, lex)
	case 1:
		args = append(args, "-d="+dict, "-l="+lex)
	default:
		args = append(args, lex, dict)
	}
	bin := extra["tool"]
	if limit >= 0 {
		args = append([]string{"--fsize=" + strconv.Itoa(limit), bin}, args...)
		bin = "prlimit"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = x.dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		x.c.Seq(false, Ev{"op": "hang", "args": args})
		return 99, nil
	}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			st := ee.ExitCode()
			if st == 0 {
				st = 98
			}
			if st < 0 {
				st = 97
			}
			return st, so.Bytes()
		}
		die("dawgtool could not be run: %v", err)
	}
	return 0, so.Bytes()
}

func (o tOpts) linesEv(lines []tLine) []Ev {
	ls := []Ev{}
	for _, l := range lines {
		v, big := l.v, l.v > 0x7fffffff
		if v < 0 {
			v = -1
		}
		if big {
			v = 0
		}
		ls = append(ls, Ev{"k": S(l.k), "cs": runes(l.k, o), "v": v, "big": big, "blank": l.blank})
	}
	return ls
}

func (x *toolRun) writeLines(name string, lines []tLine) {
	var b bytes.Buffer
	for i, l := range lines {
		b.WriteString(l.k)
		if x.o.Tab && !l.blank {
			b.WriteByte('\t')
			if l.raw != "" {
				b.WriteString(l.raw)
			} else {
				b.WriteString(strconv.FormatInt(l.v, 10))
			}
		}
		if i+1 < len(lines) || (l.k == "" && !x.o.Tab) || l.blank || x.c.rng.Intn(4) > 0 {
			b.WriteByte('\n')
		}
	}
	if err := os.WriteFile(x.path(name), b.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
}

// build runs the tool with -b; the return value says that there is a dictionary, as expected.
func (x *toolRun) build(lines []tLine) (bool, Lex) {
	x.writeLines("lex", lines)
	ok, L := x.o.built(lines)
	if x.c.rng.Intn(4) == 0 && ok { // an old file in its place
		os.WriteFile(x.path("dict"), bytes.Repeat([]byte{7, 1, 0}, 5000), 0o644)
	}
	st, _ := x.exec(true, x.path("lex"), x.path("dict"), -1)
	if len(lines) <= 120 {
		x.c.Seq((st == 0) == ok, Ev{"op": "build", "o": x.o, "lines": x.o.linesEv(lines), "unreadable": false, "status": st})
	} else if ok {
		x.c.Seq(st == 0, Ev{"op": "large", "o": x.o, "L": L.json(), "status": st})
	} else if st == 0 {
		x.c.Seq(false, Ev{"op": "buildlarge", "status": st})
	}
	return ok && st == 0, L
}

func qsEv(qs []string, o tOpts) []Ev {
	r := []Ev{}
	for _, q := range qs {
		r = append(r, Ev{"k": S(q), "cs": runes(q, o)})
	}
	return r
}

func (x *toolRun) query(L Lex, have bool, qs []string, unreadable bool, qfile, dfile string) {
	if qfile == "" {
		var b bytes.Buffer
		for i, q := range qs {
			b.WriteString(q)
			if i+1 < len(qs) || q == "" || x.c.rng.Intn(3) > 0 {
				b.WriteByte('\n')
			}
		}
		qfile = x.path("queries")
		os.WriteFile(qfile, b.Bytes(), 0o644)
	}
	st, so := x.exec(false, qfile, dfile, -1)
	e := Ev{"op": "query", "o": x.o, "q": qsEv(qs, x.o), "unreadable": unreadable, "status": st,
		"out": []Ev{}, "total": -1, "names": [][]int{}}
	if unreadable || !have {
		x.c.Seq(st != 0, e)
		return
	}
	if st != 0 {
		x.c.Seq(false, e)
		return
	}
	t := parseOut(x.o, qs, so)
	if t.garbled != "" {
		x.c.Seq(false, Ev{"op": "garbled", "why": t.garbled, "o": x.o})
		return
	}
	out := []Ev{}
	for _, a := range t.out {
		out = append(out, Ev{"k": S(a.k), "n": a.n, "list": Lex(a.list).json()})
	}
	names := [][]int{}
	for _, n := range t.names {
		names = append(names, S(n))
	}
	e["out"], e["total"], e["names"] = out, t.total, names
	x.c.Seq(x.o.outOK(L, qs, t), e)
}

func newTool(c *Ctx, o tOpts) *toolRun {
	d, err := os.MkdirTemp(extra["scratch"], "tool")
	if err != nil {
		die("%v", err)
	}
	return &toolRun{c: c, dir: d, o: o}
}
func (x *toolRun) close() { os.RemoveAll(x.dir) }

// ---- behaviours of spec/GenTool.tla --------------------------------------

type toolVec struct {
	O     tOpts `json:"o"`
	Lines []struct {
		K   []int `json:"k"`
		V   int64 `json:"v"`
		Big bool  `json:"big"`

		Blank bool `json:"blank"`
	} `json:"lines"`
	Ok    bool    `json:"ok"`
	L     []vKV   `json:"L"`
	Q     [][]int `json:"q"`
	Below [][]vKV `json:"below"`
}

var letterMaps = [][]string{{"a", "b", "c"}, {"а", "б", "в"}, {"\x01", "\x7f", "~"}, {"\x80", "\xfe", "\xff"}, {"0", "A", "я"}, {"б", "я", "р"}}

// alphabets of which the stored forms are in the order of the letters
var utfcMaps = [][]string{letterMaps[0], letterMaps[1], {"α", "β", "ω"}, {"あ", "い", "ん"}, {"丁", "日", "語"}, {"א", "ב", "ת"}, {"\U00020000", "\U00020100", "\U00020300"}}

func toolRaw() (raw [][]byte) {
	f, err := os.Open(extra["tool-vec"])
	if err != nil {
		die("%v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if b := sc.Bytes(); bytes.HasPrefix(b, []byte("VEC")) {
			raw = append(raw, append([]byte{}, b[3:]...))
		}
	}
	return raw
}

func toolVectors(r *Run) {
	raw := toolRaw()
	keep := r.pick(12000, 1<<30)
	rand.New(rand.NewSource(r.seed)).Shuffle(len(raw), func(i, j int) { raw[i], raw[j] = raw[j], raw[i] })
	sort.SliceStable(raw, func(i, j int) bool { return len(raw[i]) < len(raw[j]) && (len(raw[i]) < 900 || len(raw[j]) < 900) })
	if len(raw) > keep {
		// the smallest ones, and a random choice of the others
		rest := raw[keep/3:]
		rand.New(rand.NewSource(r.seed+1)).Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		raw = raw[:keep]
	}
	if r.only == "" {
		r.note("spec_vectors_replayed", int64(len(raw)))
	}
	r.suiteRunEvery("vec", "TraceTool", len(raw), 8, 25, func(c *Ctx) {
		var v toolVec
		if err := json.Unmarshal(raw[c.idx], &v); err != nil {
			die("bad vector: %v", err)
		}
		// maps 0, 1 keep the order of the stored forms in both encodings
		maps := utfcMaps
		if !v.O.Utfc {
			maps = [][]string{letterMaps[0], letterMaps[1], letterMaps[3]}
		}
		mp := maps[c.rng.Intn(len(maps))]
		str := func(k []int) string {
			s := ""
			for _, b := range k {
				s += mp[b-97]
			}
			return s
		}
		var lines []tLine
		for _, l := range v.Lines {
			x := tLine{k: str(l.K), v: l.V, blank: l.Blank}
			if l.V < 0 {
				x.v = -1 - int64(c.rng.Intn(1<<30))*int64(c.rng.Intn(3))
			}
			if l.Big {
				x.v = 0x80000000 + int64(c.rng.Intn(1<<30))*int64(c.rng.Intn(1<<20))*int64(c.rng.Intn(2))
			}
			lines = append(lines, x)
		}
		ok, L := v.O.built(lines)
		if ok != v.Ok || len(L) != len(v.L) {
			die("the mirror disagrees with the specification on %s", raw[c.idx])
		}
		for i, e := range v.L {
			if string(L[i].K) != str(e.K) || L[i].V != e.V {
				die("the mirror disagrees with the specification on %s", raw[c.idx])
			}
		}
		var qs []string
		for i, q := range v.Q {
			qs = append(qs, str(q))
			w := v.O.expected(L, str(q))
			if len(w) != len(v.Below[i]) {
				die("the mirror disagrees with the specification on %s", raw[c.idx])
			}
			for j, e := range v.Below[i] {
				if string(w[j].K) != str(e.K) || w[j].V != e.V {
					die("the mirror disagrees with the specification on %s", raw[c.idx])
				}
			}
		}
		x := newTool(c, v.O)
		defer x.close()
		h := fnv.New64a()
		h.Write(raw[c.idx])
		c.r.seen(h.Sum64(), len(lines) > 1)
		have, L2 := x.build(lines)
		x.query(L2, have, qs, false, "", x.path("dict"))
	})
}

// ---- random ones ------------------------------------------------------------

const separators = " =;:()#\t\r\n"

func toolKey(rng *rand.Rand, o tOpts, pool []string) string {
	for {
		var k string
		switch rng.Intn(8) {
		case 0, 1, 2:
			n := rng.Intn(5)
			for i := 0; i < n; i++ {
				k += pool[rng.Intn(len(pool))]
			}
		case 3, 4:
			k = pres[rng.Intn(len(pres))] + stems[rng.Intn(len(stems))] + endings[rng.Intn(len(endings))]
		case 5:
			k = pool[0] + pool[rng.Intn(len(pool))] + endings[rng.Intn(len(endings))]
		case 6:
			n := rng.Intn(4)
			for i := 0; i < n; i++ {
				k += string(uChar(rng))
			}
		default:
			n := rng.Intn(8)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(1 + rng.Intn(255))
			}
			k = string(b)
		}
		if strings.ContainsAny(k, separators) || strings.ContainsRune(k, 0xFEFF) {
			continue
		}
		if o.Utfc && !utf8.ValidString(k) {
			continue
		}
		return k
	}
}

func uChar(rng *rand.Rand) rune {
	for {
		var c rune
		switch rng.Intn(6) {
		case 0:
			c = rune(0x21 + rng.Intn(0x5e))
		case 1:
			c = rune(0x80 + rng.Intn(0x2600))
		case 2:
			c = rune(0x2000 + rng.Intn(0x1200))
		case 3:
			c = rune(0x10000 + rng.Intn(0x10000))
		case 4:
			c = rune(0x410 + rng.Intn(64))
		default:
			c = rune(1 + rng.Intn(0x10ffff))
		}
		if utf8.ValidRune(c) && !strings.ContainsRune(separators, c) && c != 0xFEFF {
			return c
		}
	}
}

func randOpts(rng *rand.Rand) tOpts {
	b := func() bool { return rng.Intn(2) == 0 }
	o := tOpts{Tab: b(), Sort: b(), Guide: b(), Ranked: rng.Intn(3) == 0, Index: b(), Utfc: rng.Intn(3) == 0}
	return o
}

func toolValue(rng *rand.Rand) int64 {
	switch rng.Intn(11) {
	case 10:
		return int64(rng.Intn(40)) | int64(rng.Intn(2))<<30
	case 0:
		return -int64(rng.Intn(5))
	case 1:
		return -int64(rng.Intn(1<<40)) - 1
	case 2:
		return 0x7fffffff + int64(rng.Intn(3)) - 1
	case 3:
		return int64(rng.Int63())
	case 4, 5:
		return int64(rng.Intn(3))
	case 6:
		return 0xffffffff + int64(rng.Intn(4)) - 1
	default:
		return int64(rng.Intn(1 << 31))
	}
}

func toolLines(rng *rand.Rand, o tOpts, n int) []tLine {
	pool := letterMaps[rng.Intn(len(letterMaps))]
	if o.Utfc {
		pool = utfcMaps[rng.Intn(len(utfcMaps))]
	}
	var lines []tLine
	for i := 0; i < n; i++ {
		k := toolKey(rng, o, pool)
		x := tLine{k: k, v: toolValue(rng)}
		switch rng.Intn(12) { // other ways to write a decimal number
		case 0:
			x.raw = fmt.Sprintf("%0*d", 2+rng.Intn(12), x.v)
		case 1:
			x.raw = fmt.Sprintf("%+d", x.v)
		}
		lines = append(lines, x)
		if rng.Intn(6) == 0 && i > 0 {
			lines = append(lines, tLine{k: lines[rng.Intn(len(lines))].k, v: toolValue(rng)})
		}
	}
	if !o.Sort || rng.Intn(4) == 0 {
		sort.SliceStable(lines, func(i, j int) bool { return bytes.Compare(o.stored(lines[i].k), o.stored(lines[j].k)) < 0 })
	}
	// lines without any text, anywhere
	for n := rng.Intn(3) - 1 + len(lines)/40; n > 0; n-- {
		i := rng.Intn(len(lines) + 1)
		lines = append(lines[:i:i], append([]tLine{{blank: o.Tab}}, lines[i:]...)...)
	}
	return lines
}

func toolQueries(rng *rand.Rand, o tOpts, lines []tLine, n int) []string {
	var qs []string
	for i := 0; i < n; i++ {
		var q string
		if len(lines) > 0 {
			k := lines[rng.Intn(len(lines))].k
			rs := []rune(k)
			switch rng.Intn(6) {
			case 0, 1:
				q = k
			case 2:
				if utf8.ValidString(k) {
					q = string(rs[:rng.Intn(len(rs)+1)])
				} else {
					q = k[:rng.Intn(len(k)+1)]
				}
			case 3:
				q = k + string(uChar(rng))
			case 4:
				q = k + lines[rng.Intn(len(lines))].k
			default:
				q = ""
				if !o.Utfc && len(k) > 0 {
					q = k[:rng.Intn(len(k)+1)]
				}
			}
		} else {
			q = string(uChar(rng))
		}
		qs = append(qs, q)
	}
	return qs
}

func toolRandom(r *Run) {
	r.suiteRunEvery("random", "TraceTool", r.pick(900, 20000), 8, 8, func(c *Ctx) {
		o := randOpts(c.rng)
		n := c.rng.Intn(40)
		lines := toolLines(c.rng, o, n)
		x := newTool(c, o)
		defer x.close()
		h := fnv.New64a()
		fmt.Fprint(h, o, lines)
		c.r.seen(h.Sum64(), len(lines) > 1)
		switch c.rng.Intn(6) {
		case 0: // some disorder
			if len(lines) > 1 {
				i, j := c.rng.Intn(len(lines)), c.rng.Intn(len(lines))
				lines[i], lines[j] = lines[j], lines[i]
			}
		case 1: // a NUL
			if len(lines) > 0 && c.rng.Intn(2) == 0 {
				i := c.rng.Intn(len(lines))
				lines[i].k += "\x00" + lines[i].k
				lines[i].blank = false
			}
		}
		have, L := x.build(lines)
		qs := toolQueries(c.rng, o, lines, c.rng.Intn(12))
		x.query(L, have, qs, false, "", x.path("dict"))
		if !have {
			return
		}
		if c.rng.Intn(2) == 0 { // the file cut short
			b, err := os.ReadFile(x.path("dict"))
			if err == nil && len(b) > 0 {
				cut := c.rng.Intn(len(b))
				switch c.rng.Intn(3) {
				case 0:
					cut = len(b) - 1
				case 1:
					cut = len(b) - 1 - c.rng.Intn(12)%len(b)
				}
				if cut < 0 {
					cut = 0
				}
				os.WriteFile(x.path("cut"), b[:cut], 0o644)
				x.query(L, true, qs, true, "", x.path("cut"))
			}
		}
		if c.rng.Intn(3) == 0 { // once more
			x.query(L, true, toolQueries(c.rng, o, lines, 4), false, "", x.path("dict"))
		}
	})
}

// toolFaults: inputs that cannot be read, outputs that cannot be written.
func toolFaults(r *Run) {
	r.suiteRunEvery("faults", "TraceTool", r.pick(220, 3000), 8, 8, func(c *Ctx) {
		o := randOpts(c.rng)
		lines := toolLines(c.rng, o, 1+c.rng.Intn(20))
		ok, L := o.built(lines)
		if !ok {
			return
		}
		x := newTool(c, o)
		defer x.close()
		refused := func(st int) {
			c.Seq(st != 0, Ev{"op": "build", "o": o, "lines": o.linesEv(lines), "unreadable": true, "status": st})
		}
		dict := x.path("dict")
		switch c.rng.Intn(9) {
		case 0: // no lexicon
			st, _ := x.exec(true, x.path("none"), dict, -1)
			refused(st)
			x.query(L, false, nil, true, "", dict)
		case 1: // a directory
			os.Mkdir(x.path("sub"), 0o755)
			st, _ := x.exec(true, x.path("sub"), dict, -1)
			refused(st)
			x.query(L, false, nil, false, "", dict)
		case 2: // nowhere to write
			x.writeLines("lex", lines)
			st, _ := x.exec(true, x.path("lex"), "/dev/full", -1)
			refused(st)
		case 3:
			x.writeLines("lex", lines)
			st, _ := x.exec(true, x.path("lex"), filepath.Join(x.dir, "no", "dict"), -1)
			refused(st)
		case 4: // too little room
			if have, _ := x.build(lines); have {
				fi, err := os.Stat(dict)
				if err == nil {
					// room for some of it, for all but the end, and for some parts but not the next
					n := int(fi.Size())
					room := []int{c.rng.Intn(n), n - 1}
					if b, err := os.ReadFile(dict); err == nil && n > 4 {
						at := 4 + 4*int(binary.LittleEndian.Uint32(b))
						for k := 2; at < n && at > 0; k += 2 {
							room = append(room, at, at+c.rng.Intn(n-at), at-1)
							at += 4 + k*int(binary.LittleEndian.Uint32(b))
						}
					}
					for _, m := range room {
						st, _ := x.exec(true, x.path("lex"), x.path("dict2"), m)
						refused(st)
						x.query(L, false, nil, false, "", x.path("dict2"))
					}
				}
			}
		case 5: // queries that are not there
			if have, _ := x.build(lines); have {
				x.query(L, true, nil, true, x.path("none"), dict)
				os.Mkdir(x.path("sub"), 0o755)
				x.query(L, true, nil, true, x.path("sub"), dict)
				x.query(L, true, nil, true, "", x.path("nodict"))
			}
		case 6: // no number where one is expected
			if !o.Tab {
				x.o.Tab = true
				o = x.o
			}
			bad := append([]tLine{}, lines...)
			i := c.rng.Intn(len(bad))
			bad[i].raw, bad[i].blank = []string{"x", "1x", "--1", "0x1g"}[c.rng.Intn(4)], false
			x.writeLines("lex", bad)
			st, _ := x.exec(true, x.path("lex"), dict, -1)
			refused(st)
			x.query(L, false, nil, false, "", dict)
		default: // a very long line: it may be too long, but it is not passed over
			if have, _ := x.build(lines); have {
				q := strings.Repeat("ab", 20000+c.rng.Intn(30000))
				qs := append(toolQueries(c.rng, o, lines, 2), q, "a")
				os.WriteFile(x.path("longq"), []byte(strings.Join(qs, "\n")+"\n"), 0o644)
				st, so := x.exec(false, x.path("longq"), dict, -1)
				if st != 0 {
					c.Seq(true, Ev{"op": "querylong", "status": st})
				} else {
					t := parseOut(o, qs, so)
					good := o.outOK(L, qs, t)
					c.Seq(good, Ev{"op": "querylong", "status": 0, "right": good})
				}
			}
			long := append([]tLine{}, lines...)
			i := len(long)
			if c.rng.Intn(2) == 0 {
				i = c.rng.Intn(len(long) + 1)
			}
			k := strings.Repeat("c", 40000+c.rng.Intn(60000))
			if i > 0 {
				k = long[i-1].k + k
			}
			long = append(long[:i:i], append([]tLine{{k: k, v: 5}}, long[i:]...)...)
			ok2, L2 := o.built(long)
			x.writeLines("lex", long)
			st, _ := x.exec(true, x.path("lex"), x.path("dictl"), -1)
			c.Seq(st != 0 || ok2, Ev{"op": "buildlong", "o": o, "lines": o.linesEv(long), "status": st})
			if st != 0 {
				x.query(nil, false, nil, false, "", x.path("dictl"))
			} else if ok2 {
				x.query(L2, true, []string{"", k, "c"}, false, "", x.path("dictl"))
			}
		}
	})
}

// toolRoom: a device that is full before, at the beginning of, inside, or at the end of each part.
func toolRoom(r *Run) {
	r.suiteRunEvery("room", "TraceTool", r.pick(36, 600), 8, 8, func(c *Ctx) {
		o := randOpts(c.rng)
		o.Ranked, o.Guide, o.Index = c.idx%3 == 1, c.idx%3 == 2, c.idx/3%2 == 1
		lines := toolLines(c.rng, o, 1+c.rng.Intn(20))
		if c.idx%9 == 8 {
			lines = toolLines(c.rng, o, 300) // more than one block
		}
		ok, L := o.built(lines)
		if !ok {
			return
		}
		x := newTool(c, o)
		defer x.close()
		have, _ := x.build(lines)
		if !have {
			return
		}
		b, err := os.ReadFile(x.path("dict"))
		if err != nil || len(b) < 4 {
			return
		}
		// the ends of the parts, by their counts
		ends := []int{0}
		for _, u := range []int{4, 2, 4} {
			at := ends[len(ends)-1]
			if at+4 > len(b) {
				break
			}
			ends = append(ends, at+4+u*int(binary.LittleEndian.Uint32(b[at:])))
		}
		for _, e := range ends {
			for _, at := range []int{e - 1, e, e + 1, e + 4, e + 5, e + 300} {
				if at >= 0 && at < len(b) {
					os.Remove(x.path("dict2"))
					st, _ := x.exec(true, x.path("lex"), x.path("dict2"), at)
					lv := o.linesEv(lines)
					if len(lines) > 120 {
						lv = o.linesEv(lines[:1])
					}
					c.Seq(st != 0, Ev{"op": "build", "o": o, "lines": lv, "unreadable": true, "status": st})
					if c.rng.Intn(4) == 0 {
						x.query(L, false, nil, false, "", x.path("dict2"))
					}
				}
			}
		}
	})
}

// toolLong: lines of some thousand bytes are lines like any other.
func toolLong(r *Run) {
	lens := []int{255, 256, 1023, 1024, 3000, 4095, 4096, 4097, 8192, 10000, 20000, 32766, 32768, 40000, 60000}
	r.suiteRunEvery("lines", "TraceTool", r.pick(60, 400), 8, 1000, func(c *Ctx) {
		c.sampled = false
		o := randOpts(c.rng)
		n := lens[c.idx%len(lens)]
		if n > 32000 && c.rng.Intn(3) > 0 {
			o.Guide, o.Ranked = c.rng.Intn(3) > 0, false
			o.Ranked = !o.Guide
		}
		unit := []string{"ab", "x", "да", "ひ", "a b "}[c.rng.Intn(5)]
		long := func(n int) string {
			k := strings.Repeat(unit, n/len(unit)+1)[:n/len(unit)*len(unit)]
			return k + strings.Repeat("z", n-len(k))
		}
		lines := append(toolLines(c.rng, o, c.rng.Intn(4)), tLine{k: long(n), v: toolValue(c.rng)}, tLine{k: long(n - 1 - c.rng.Intn(n/2)), v: 3},
			tLine{k: long(n-2-c.rng.Intn(99)) + "~", v: toolValue(c.rng)})
		if !o.Sort {
			sort.SliceStable(lines, func(i, j int) bool { return bytes.Compare(o.stored(lines[i].k), o.stored(lines[j].k)) < 0 })
		}
		x := newTool(c, o)
		defer x.close()
		have, L := x.build(lines)
		k := lines[c.rng.Intn(len(lines))].k
		x.query(L, have, []string{k, "", long(n), long(n) + "q", long(n / 2)}, false, "", x.path("dict"))
	})
}

func toolLarge(r *Run) {
	sizes := []int{500, 3000, 9999, 10000, 10001, 25000}
	r.suiteRunEvery("large", "TraceTool", r.pick(14, 60), 6, 1000, func(c *Ctx) {
		c.sampled = c.idx == 0
		o := tOpts{Tab: c.idx%2 == 0, Sort: c.rng.Intn(2) == 0, Guide: c.idx%3 == 0, Ranked: c.idx%3 == 1, Index: c.rng.Intn(3) > 0, Utfc: c.rng.Intn(3) == 0}
		n := sizes[c.idx%len(sizes)]
		if c.idx%14 >= 12 { // more than sixteen bits can count
			o = tOpts{Tab: true, Sort: c.rng.Intn(2) == 0, Guide: c.idx%2 == 0, Ranked: c.idx%2 == 1, Index: true}
			n = 1<<16 + c.rng.Intn(3000)
		}
		seen := map[string]bool{}
		var lines []tLine
		for len(lines) < n {
			k := pres[c.rng.Intn(len(pres))] + stems[c.rng.Intn(len(stems))] + endings[c.rng.Intn(len(endings))] + strconv.Itoa(c.rng.Intn(n))
			if !seen[k] {
				seen[k] = true
				lines = append(lines, tLine{k: k, v: toolValue(c.rng)})
			}
		}
		if !o.Sort {
			sort.SliceStable(lines, func(i, j int) bool { return bytes.Compare(o.stored(lines[i].k), o.stored(lines[j].k)) < 0 })
		}
		x := newTool(c, o)
		defer x.close()
		h := fnv.New64a()
		fmt.Fprint(h, o, lines)
		c.r.seen(h.Sum64(), true)
		have, L := x.build(lines)
		qs := toolQueries(c.rng, o, lines, 100)
		qs = append(qs, "re", "")
		x.query(L, have, qs, false, "", x.path("dict"))
	})
}

// shapedLines: the lexicons the library is asked about elsewhere (wide, long, shared, filling blocks), as lines;
// with UTF-C, texts through all of its windows.
func shapedLines(rng *rand.Rand, o tOpts, i int) []tLine {
	var L Lex
	if o.Utfc {
		pool := make([][]rune, 2+rng.Intn(12))
		for j := range pool {
			pool[j] = randText(rng, rng.Intn(14))
		}
		m := map[string]int32{}
		for j, n := 0, rng.Intn(120); j < n; j++ {
			k := append([]rune{}, pool[rng.Intn(len(pool))]...)
			switch rng.Intn(4) {
			case 0:
				k = append(k[:rng.Intn(len(k)+1)], pool[rng.Intn(len(pool))]...)
			case 1:
				k = append(k, pool[rng.Intn(len(pool))]...)
			case 2:
				k = append(k[:rng.Intn(len(k)+1)], randText(rng, 1+rng.Intn(4))...)
			}
			m[string(k)] = int32(rng.Intn(1 + j))
		}
		var es []Entry
		for k, v := range m {
			es = append(es, Entry{[]byte(k), v})
		}
		L = normal(es)
	} else {
		switch i % 11 {
		case 0:
			L = wideLex(rng, 1+rng.Intn(3))
		case 1:
			L = productLex(rng, 5+rng.Intn(60), 2+rng.Intn(9))
		case 2:
			L = blockLex(rng)
		case 3:
			L = longKeys(rng, rng.Intn(16))
		case 4:
			L = atGrowth(rng)
		case 5:
			L = mergingLex(rng, 20+rng.Intn(300))
		case 6:
			L = edgeLex(rng)
		default:
			L = mediumLex(rng)
		}
	}
	var lines []tLine
	for _, e := range L {
		k := string(e.K)
		if len(k) > 30000 || strings.ContainsAny(k, separators) || strings.Contains(k, "\xef\xbb\xbf") || k == "" && !o.Tab {
			continue
		}
		lines = append(lines, tLine{k: k, v: int64(e.V)})
	}
	if o.Sort {
		rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	} else {
		sort.SliceStable(lines, func(i, j int) bool { return bytes.Compare(o.stored(lines[i].k), o.stored(lines[j].k)) < 0 })
	}
	return lines
}

func toolShapes(r *Run) {
	r.suiteRunEvery("shapes", "TraceTool", r.pick(240, 4000), 8, 1000, func(c *Ctx) {
		c.sampled = false
		o := randOpts(c.rng)
		o.Tab = c.rng.Intn(5) > 0
		lines := shapedLines(c.rng, o, c.idx)
		x := newTool(c, o)
		defer x.close()
		h := fnv.New64a()
		fmt.Fprint(h, o, lines)
		c.r.seen(h.Sum64(), len(lines) > 1)
		have, L := x.build(lines)
		qs := toolQueries(c.rng, o, lines, 25)
		x.query(L, have, append(qs, ""), false, "", x.path("dict"))
	})
}

// toolWindows: UTF-C keys that lead through every state of the encoder.
func toolWindows(r *Run) {
	paths := canonicalPaths()
	var states []uState
	for s := range paths {
		states = append(states, s)
	}
	sort.Slice(states, func(i, j int) bool { return fmt.Sprint(states[i]) < fmt.Sprint(states[j]) })
	rand.New(rand.NewSource(r.seed+77)).Shuffle(len(states), func(i, j int) { states[i], states[j] = states[j], states[i] })
	const chunk = 400
	n := (len(states) + chunk - 1) / chunk
	r.suiteRunEvery("windows", "TraceTool", n, 8, 1000, func(c *Ctx) {
		c.sampled = false
		o := tOpts{Tab: true, Sort: true, Guide: c.idx%3 > 0, Ranked: c.idx%6 == 1, Index: c.rng.Intn(2) == 0, Utfc: true}
		seen := map[string]bool{}
		var lines []tLine
		for _, s := range states[c.idx*chunk : min((c.idx+1)*chunk, len(states))] {
			for j, es := 0, edgesOf(c.rng, s, 2); j < r.pick(8, 60); j++ {
				e := es[c.rng.Intn(len(es))]
				k := append(append([]rune{}, paths[s]...), e)
				if j%4 > 0 {
					_, t := uEmit(s, int(e), nil)
					fs := edgesOf(c.rng, t, 2)
					k = append(k, fs[c.rng.Intn(len(fs))])
				}
				z := string(k)
				if !seen[z] && !strings.ContainsAny(z, separators) && !strings.ContainsRune(z, 0xFEFF) && !strings.ContainsRune(z, 0) {
					seen[z] = true
					lines = append(lines, tLine{k: z, v: toolValue(c.rng)})
				}
			}
		}
		x := newTool(c, o)
		defer x.close()
		h := fnv.New64a()
		fmt.Fprint(h, o, lines)
		c.r.seen(h.Sum64(), true)
		have, L := x.build(lines)
		var qs []string
		for i := 0; i < 200; i++ {
			qs = append(qs, lines[c.rng.Intn(len(lines))].k)
		}
		if o.Guide || o.Ranked { // all of them, in parts
			for _, m := range movers() {
				qs = append(qs, string(m))
			}
		} else {
			for _, l := range lines {
				qs = append(qs, l.k)
			}
		}
		x.query(L, have, qs, false, "", x.path("dict"))
	})
}

func checkTool(r *Run) {
	toolVectors(r)
	toolShapes(r)
	toolWindows(r)
	toolRandom(r)
	toolFaults(r)
	toolRoom(r)
	toolLong(r)
	toolLarge(r)
}
