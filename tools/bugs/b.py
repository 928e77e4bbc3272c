PRE = '''package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"io"

	"github.com/deNULL/dawg"
)

var _ = bytes.Compare
var _ = rand.Int
var _ = sort.Strings
var _ = exec.Command
var _ = strings.Repeat
var _ = io.EOF
var _ = dawg.NewDawg

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

type kv struct {
	k string
	v int32
}

func automaton(es []kv) *dawg.Dawg {
	b := dawg.NewDawgBuilder()
	for _, e := range es {
		if !b.InsertStringValue(e.k, e.v) {
			fail("refused %q", e.k)
		}
	}
	a := dawg.NewDawg()
	b.Finish(a)
	return a
}
func sorted(m map[string]int32) []kv {
	var es []kv
	for k, v := range m {
		es = append(es, kv{k, v})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	return es
}
func allFound(d *dawg.Dictionary, es []kv) {
	for _, e := range es {
		if v := d.FindString(e.k); v != e.v {
			fail("%q: %d instead of %d", e.k, v, e.v)
		}
	}
}
'''
BIG = '''
func big() []kv {
	rng := rand.New(rand.NewSource(3))
	m := map[string]int32{}
	tails := []string{"", "a", "ab", "ion", "ions", "ing", "s"}
	for len(m) < 900000 {
		k := make([]byte, 5+rng.Intn(4))
		for j := range k {
			k[j] = byte(1 + rng.Intn(255))
		}
		if rng.Intn(40) == 0 {
			for _, t := range tails {
				m[string(k[:4])+t] = 5
			}
		} else {
			m[string(k)] = int32(rng.Intn(1 << 30))
		}
	}
	return sorted(m)
}
'''
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, race=False, big=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + (BIG if big else "") + demo, race=race))


bug("probing-gives-up", "C05", "a build with so many states that a probe for an equal state runs through more than 16 occupied slots of the table",
    "the search for an equal state gives up after 16 slots and takes the slot it has reached, so that equal states are built twice",
    [("dawg_builder.go", "	*hashId = db.hashUnit(unitIndex) % baseType(len(db.hashTable))\n	for {\n", "	*hashId = db.hashUnit(unitIndex) % baseType(len(db.hashTable))\n	for probes := 0; probes < 16; probes++ {\n")],
    '''
func main() {
	rng := rand.New(rand.NewSource(1))
	m := map[string]int32{}
	for len(m) < 60000 {
		k := make([]byte, 3)
		for j := range k {
			k[j] = byte('a' + rng.Intn(26))
		}
		m[string(k)+"x"] = int32(rng.Intn(5000))
		m[string(k)+"y"] = int32(rng.Intn(5000))
		if len(m) > 30000 {
			break
		}
	}
	a := automaton(sorted(m))
	seen := map[uint32]bool{}
	sig := map[string]uint32{}
	var walk func(i uint32)
	walk = func(i uint32) {
		if i == 0 || seen[i] {
			return
		}
		seen[i] = true
		s := ""
		for j := i; j != 0; j = a.Sibling(j) {
			if a.IsLeaf(j) {
				s += fmt.Sprintf("=%d;", a.Value(j))
			} else {
				walk(a.Child(j))
				s += fmt.Sprintf("%d>%d;", a.Label(j), a.Child(j))
			}
		}
		if o, ok := sig[s]; ok && o != i {
			fail("states %d and %d are equal", o, i)
		}
		sig[s] = i
	}
	walk(a.Child(a.Root()))
}
''')

bug("merged-count-survives-finish", "C05", "a builder used for a second automaton after one with shared states",
    "the merged transitions of the first build are counted in the numbers of the second",
    [("dawg_builder.go", "	db.numOfStates = 1\n	db.numOfMergedTransitions = 0\n	db.numOfMergingStates = 0\n}", "	db.numOfStates = 1\n	db.numOfMergingStates = 0\n}")],
    '''
func main() {
	b := dawg.NewDawgBuilder()
	build := func() *dawg.Dawg {
		for _, k := range []string{"aing", "bing", "cing"} {
			b.InsertStringValue(k, 1)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		return a
	}
	x, y := build(), build()
	if x.NumOfMergedTransitions() != y.NumOfMergedTransitions() || x.NumOfMergedStates() != y.NumOfMergedStates() {
		fail("%d %d", x.NumOfMergedTransitions(), y.NumOfMergedTransitions())
	}
}
''')

bug("top-bit-of-value-not-compared", "C01", "two keys whose values differ only in bit 30 and whose final states meet in one run of the table of states",
    "such states are taken for equal, so that one key gets the value of the other",
    [("dawg_builder.go", "		if db.unitPool[i].base() != baseType(db.basePool[transitionIndex]) ||\n", "		if (db.unitPool[i].base()^baseType(db.basePool[transitionIndex]))<<1 != 0 ||\n")],
    '''
func main() {
	for size := 1; size < 4; size++ {
		b := dawg.NewDawgBuilderWithSize(size)
		var es []kv
		for i := 0; i < 200; i++ {
			es = append(es, kv{fmt.Sprintf("%04d", i), int32(i%7) + int32(i%2)<<30})
		}
		for _, e := range es {
			b.InsertStringValue(e.k, e.v)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		allFound(a.Build(), es)
	}
	var es []kv
	for i := 0; i < 9000; i++ {
		es = append(es, kv{fmt.Sprintf("%04d", i), int32(i/2) + int32(i%2)<<30})
	}
	allFound(automaton(es).Build(), es)
}
''')

bug("length-zero-means-all", "C01", "a lookup by length with length 0",
    "a lookup of the first 0 bytes of a string looks up the whole string",
    [("dictionary.go", "func (dict *Dictionary) FollowStringLen(key string, length sizeType, index *baseType) bool {\n	for i := 0; i < length; i++ {", "func (dict *Dictionary) FollowStringLen(key string, length sizeType, index *baseType) bool {\n	if length == 0 {\n		return dict.FollowString(key, index)\n	}\n	for i := range []byte(key)[:length] {")],
    '''
func main() {
	d := automaton([]kv{{"", 9}, {"ab", 1}}).Build()
	if d.FindStringLen("ab", 0) != 9 || d.FindStringLen("x", 0) != 9 || d.FindStringLen("abc", 2) != 1 {
		fail("length 0")
	}
}
''')

bug("count-set-instead-of-added", "C02", "counting navigation continued from a position, with the count so far passed in",
    "following by length sets the count to the length of this match instead of adding to it",
    [("dictionary.go", "func (dict *Dictionary) FollowStringLenCount(key string, length sizeType, index *baseType, count *sizeType) bool {\n	for i := 0; i < length; i++ {\n		if !dict.Follow(key[i], index) {\n			return false\n		}\n		*count++\n	}", "func (dict *Dictionary) FollowStringLenCount(key string, length sizeType, index *baseType, count *sizeType) bool {\n	for i := 0; i < length; i++ {\n		if !dict.Follow(key[i], index) {\n			return false\n		}\n		*count = i + 1\n	}")],
    '''
func main() {
	d := automaton([]kv{{"abcd", 1}}).Build()
	ix, n := d.Root(), 0
	d.FollowStringLenCount("ab", 2, &ix, &n)
	d.FollowStringLenCount("cx", 2, &ix, &n)
	if n != 3 {
		fail("%d", n)
	}
}
''')

bug("prefix-of-last-key-replaces-it", "C03", "inserting a key that is shorter than the last one and a prefix of it, when the last key ends right after a byte 1",
    "the order of an end of key and the byte 1 is not checked, so a key out of order is accepted",
    [("dawg_builder.go", "		if keyLabel < unitLabel {\n", "		if keyLabel < unitLabel && (keyPos < length || unitLabel > 1) {\n"),
     ("dawg_builder.go", "		} else if keyLabel > unitLabel {\n			db.unitPool[childIndex].hasSibling = true", "		} else if keyLabel != unitLabel {\n			db.unitPool[childIndex].hasSibling = true")],
    '''
func main() {
	b := dawg.NewDawgBuilder()
	if !b.InsertStringValue("ab\\x01", 1) {
		fail("refused")
	}
	if b.InsertStringValue("ab", 2) {
		fail("a key below the last one was accepted")
	}
}
''')

bug("completer-wakes-after-end", "C06", "asking for the next key again after the end was reported",
    "after the end, the completer starts over below the first child",
    [("completer.go", "				c.indexStack = c.indexStack[:len(c.indexStack)-1]\n				if len(c.indexStack) == 0 {\n					return false\n				}\n\n				index", "				if len(c.indexStack) == 1 {\n					return false\n				}\n				c.indexStack = c.indexStack[:len(c.indexStack)-1]\n\n				index")],
    '''
func main() {
	a := automaton([]kv{{"ab", 1}, {"b", 2}})
	d := a.Build()
	c := dawg.NewCompleter(d, dawg.BuildGuide(a, d))
	c.Start(d.Root())
	for c.Next() {
	}
	for i := 0; i < 3; i++ {
		if c.Next() {
			fail("%q after the end", c.Key())
		}
	}
}
''')

bug("ranked-nodes-numbered-in-16-bits", "C07", "a ranked listing of more than 65536 nodes",
    "back links between the nodes of a listing wrap, so that keys are spelled wrong",
    [("ranked_completer_node.go", "	prevNodeIndex baseType\n", "	prevNodeIndex uint16\n"),
     ("ranked_completer.go", "	nodeIndex = rc.nodes[nodeIndex].prevNodeIndex\n\n", "	nodeIndex = baseType(rc.nodes[nodeIndex].prevNodeIndex)\n\n"),
     ("ranked_completer.go", "		rc.enqueueNode(nodeIndex)\n		nodeIndex = rc.nodes[nodeIndex].prevNodeIndex\n", "		rc.enqueueNode(nodeIndex)\n		nodeIndex = baseType(rc.nodes[nodeIndex].prevNodeIndex)\n"),
     ("ranked_completer.go", "	var prevNodeIndex baseType = rc.nodes[*nodeIndex].prevNodeIndex\n", "	var prevNodeIndex baseType = baseType(rc.nodes[*nodeIndex].prevNodeIndex)\n"),
     ("ranked_completer.go", "		prevNodeIndex: prevNodeIndex,\n", "		prevNodeIndex: uint16(prevNodeIndex),\n")],
    '''
func main() {
	m := map[string]int32{}
	for i := 0; i < 40000; i++ {
		m[fmt.Sprintf("%06d", i*7)] = int32(i * 31 % 50021)
	}
	a := automaton(sorted(m))
	d := a.Build()
	c := dawg.NewRankedCompleter(d, dawg.BuildRankedGuide(a, d))
	c.Start(d.Root())
	n := 0
	for c.Next() && n <= len(m) {
		if v, ok := m[c.Key()]; !ok || v != c.Value() {
			fail("%q %d", c.Key(), c.Value())
		}
		n++
	}
	if n != len(m) {
		fail("%d keys", n)
	}
}
''')

bug("index-rebuilt-in-place", "C09", "building an index into an object that holds one of the same size",
    "the counts of the earlier index are taken for states already counted",
    [("index_builder.go", "	ib.index.units = make([]IndexUnit, len(ib.dict.units))\n", "	if len(ib.index.units) != len(ib.dict.units) {\n		ib.index.units = make([]IndexUnit, len(ib.dict.units))\n	}\n")],
    '''
func main() {
	x := dawg.NewIndex()
	for _, es := range [][]kv{{{"a", 1}, {"ab", 2}, {"c", 3}}, {{"a", 5}, {"b", 2}}} {
		a := automaton(es)
		d := a.Build()
		g := dawg.BuildRankedGuide(a, d)
		if !dawg.NewIndexBuilder(d, g, x).Build() {
			fail("build")
		}
		if x.TotalCount() != uint32(len(es)) {
			fail("total %d of %d", x.TotalCount(), len(es))
		}
	}
}
''')

bug("ranked-guide-read-in-chunks", "C10", "a ranked guide with a multiple of 4096 units",
    "a guide is read in chunks, and the loop ends one chunk early when the last one is full",
    [("ranked_guide.go", "	err = binary.Read(r, binary.LittleEndian, &unitsBuf)\n	if err != nil {\n		return false\n	}\n", "	for pos := 0; pos+4096 < size || pos == 0; pos += 4096 {\n		end := pos + 4096\n		if end > size || end+4096 > size && size%4096 != 0 {\n			end = size\n		}\n		err = binary.Read(r, binary.LittleEndian, unitsBuf[pos:end])\n		if err != nil {\n			return false\n		}\n		if end == size {\n			break\n		}\n	}\n")],
    '''
func main() {
	for n := 100; n < 20000; n += 100 {
		var es []kv
		for i := 0; i < n; i++ {
			es = append(es, kv{fmt.Sprintf("%06x", i*2654435761%0xffffff), int32(i)})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
		a := automaton(es)
		d := a.Build()
		g := dawg.BuildRankedGuide(a, d)
		var b, c bytes.Buffer
		g.Write(&b)
		r := bytes.NewReader(b.Bytes())
		h := dawg.ReadRankedGuide(r)
		if h == nil || r.Len() != 0 {
			fail("%d units: %d bytes left", g.Size(), r.Len())
		}
		h.Write(&c)
		if !bytes.Equal(b.Bytes(), c.Bytes()) {
			fail("%d units", g.Size())
		}
	}
}
''')

bug("guide-write-buffered", "C11", "a device that fails when the last part of a guide is written",
    "a guide is written through a buffer whose last flush is not looked at",
    [("guide.go", "	err := binary.Write(w, binary.LittleEndian, baseSize)\n", "	bw := bufio.NewWriter(w)\n	defer bw.Flush()\n	err := binary.Write(bw, binary.LittleEndian, baseSize)\n"),
     ("guide.go", "	err = binary.Write(w, binary.LittleEndian, guide.units)\n", "	err = binary.Write(bw, binary.LittleEndian, guide.units)\n"),
     ("guide.go", 'import (\n', 'import (\n	"bufio"\n')],
    '''
type dev struct{ n int }

func (d *dev) Write(p []byte) (int, error) {
	if len(p) > d.n {
		return d.n, io.ErrShortWrite
	}
	d.n -= len(p)
	return len(p), nil
}
func main() {
	a := automaton([]kv{{"ab", 1}, {"b", 2}})
	g := dawg.BuildGuide(a, a.Build())
	for n := 0; n < g.FileSize(); n++ {
		if g.Write(&dev{n}) {
			fail("written to a device of %d bytes", n)
		}
	}
}
''')

bug("bare-header-accepted", "C11", "a dictionary file that ends right after the count",
    "a file with the count and no unit at all is taken for success",
    [("dictionary.go", "	err = binary.Read(r, binary.LittleEndian, &unitsBuf)\n	if err != nil {\n", "	err = binary.Read(r, binary.LittleEndian, &unitsBuf)\n	if err != nil && err != io.EOF {\n")],
    '''
func main() {
	a := automaton([]kv{{"ab", 1}, {"b", 2}})
	var b bytes.Buffer
	a.Build().Write(&b)
	for n := 0; n < b.Len(); n++ {
		if dawg.ReadDictionary(bytes.NewReader(b.Bytes()[:n])) != nil {
			fail("%d of %d bytes accepted", n, b.Len())
		}
	}
}
''')

bug("unused-units-of-last-blocks-only", "C12", "a dictionary of more than 16 blocks of 256 units",
    "the unused units of blocks fixed while building are not counted",
    [("dictionary_builder.go", "	for blockId := begin; blockId != end; blockId++ {\n		db.fixBlock(blockId)\n", "	db.numOfUnusedUnits = 0\n	for blockId := begin; blockId < end; blockId++ {\n		db.fixBlock(blockId)\n")],
    '''
func main() {
	rng := rand.New(rand.NewSource(5))
	m := map[string]int32{}
	for i := 1; i < 200; i++ {
		for j := 0; j < 170; j++ {
			m[string([]byte{byte(i), byte(1 + rng.Intn(255))})] = 1
		}
	}
	a := automaton(sorted(m))
	var n uint32
	d := a.BuildWithUnused(&n)
	used := map[uint32]bool{0: true}
	var file bytes.Buffer
	d.Write(&file)
	f := file.Bytes()[4:]
	for k := range m {
		ix := d.Root()
		for j := 0; j < len(k); j++ {
			d.Follow(k[j], &ix)
			used[ix] = true
		}
		u := uint32(f[4*ix]) | uint32(f[4*ix+1])<<8 | uint32(f[4*ix+2])<<16 | uint32(f[4*ix+3])<<24
		used[ix^(u>>10)<<(u>>6&8)] = true
	}
	if want := d.Size() - len(used); int(n) != want {
		fail("%d unused units reported instead of %d", n, want)
	}
}
''')

bug("decoder-stays-long-after-kana", "C13", "a character of a long window, then an ideographic space, then a kana of the same window",
    "the decoder stays in the long mode when the encoder has left it",
    [("utfc.go", "				auxOffs = getAuxOffset(offs)\n				offs = cp & offsMask13Bit\n				is21Bit = false\n", "				auxOffs = getAuxOffset(offs)\n				offs = cp & offsMask13Bit\n				is21Bit = is21Bit && cp <= rangeHK[0]\n")],
    '''
func main() {
	for _, s := range []string{"\\u4e2d\\u3000\\u3044", "\\u4e2d\\u3042\\u3044", "\\u4e2d\\u30a2\\u4e2e"} {
		func() {
			defer func() {
				if recover() != nil {
					fail("panic on %q", s)
				}
			}()
			if dawg.UtfcDecode(dawg.UtfcEncode(s)) != s {
				fail("%q", s)
			}
		}()
	}
}
''')

bug("refusal-of-marker-ignored", "C15", "a follower that refuses the marker byte of a character in a new long window with a zero low byte",
    "bytes are handed over after one was refused",
    [("utfc.go", "				if !f.Follow(marker01) || !f.Follow(byte(marker21Bit|(cp>>16))) || !f.Follow(hi) {\n", "				f.Follow(marker01)\n				if !f.Follow(byte(marker21Bit|(cp>>16))) || !f.Follow(hi) {\n")],
    '''
type f struct{ n, left int }

func (x *f) Follow(c byte) bool { x.n++; x.left--; return x.left >= 0 }
func main() {
	s := "a\\u4e00b\\U00012700"
	n := len(dawg.UtfcEncode(s))
	for i := 0; i < n; i++ {
		x := &f{left: i}
		if dawg.UtfcFollow(s, x) || x.n != i+1 {
			fail("refusal at %d: %d calls", i, x.n)
		}
	}
}
''')

bug("last-latin-letter-left-out", "C16", "U+02FF after another window",
    "the last modifier letter opens a window of its own; both directions agree, but stored encodings no longer match",
    [("utfc.go", "const maxLatinCp = 0x02FF", "const maxLatinCp = 0x02FE")],
    '''
func main() {
	e := dawg.UtfcEncode("\\u4e2d\\u02ff!")
	if fmt.Sprintf("%x", e) != "a0282d82ff21" {
		fail("%x", e)
	}
}
''')

bug("labels-shared-by-builders", "C17", "two dictionaries being built at the same time",
    "all dictionary builders collect labels in one buffer",
    [("dictionary_builder.go", "	return &DictionaryBuilder{\n		dawg: dawg,\n		dict: dict,\n	}", "	return &DictionaryBuilder{\n		dawg:   dawg,\n		dict:   dict,\n		labels: labelBuffer,\n	}"),
     ("dictionary_builder.go", "const lowerMask = 0xFF\n", "const lowerMask = 0xFF\n\n// Room for the labels of the children of a node.\nvar labelBuffer = make([]ucharType, 0, 256)\n")],
    '''
func main() {
	a := automaton([]kv{{"ab", 1}, {"b", 2}, {"bc", 4}, {"da", 1}})
	b := automaton([]kv{{"xb", 1}, {"xc", 2}, {"yc", 4}, {"za", 1}})
	done := make(chan bool)
	for _, x := range []*dawg.Dawg{a, b} {
		go func(x *dawg.Dawg) {
			for i := 0; i < 300; i++ {
				x.Build()
			}
			done <- true
		}(x)
	}
	<-done
	<-done
}
''', race=True)

bug("ranked-candidates-recycled", "C17", "two ranked completers used at the same time",
    "candidates of all listings come from one free list, so that listings in different goroutines overwrite each other",
    [("ranked_completer.go", "	heap.Push(&rc.candidateQueue, &RankedCompleterCandidate{\n		nodeIndex: nodeIndex,\n		value:     dictValue(rc.dict.units[rc.nodes[nodeIndex].dictIndex]),\n	})", "	var candidate *RankedCompleterCandidate = &RankedCompleterCandidate{}\n	if n := len(freeCandidates); n > 0 {\n		candidate = freeCandidates[n-1]\n		freeCandidates = freeCandidates[:n-1]\n	}\n	candidate.nodeIndex = nodeIndex\n	candidate.value = dictValue(rc.dict.units[rc.nodes[nodeIndex].dictIndex])\n	heap.Push(&rc.candidateQueue, candidate)"),
     ("ranked_completer.go", "	heap.Pop(&rc.candidateQueue)\n", "	heap.Pop(&rc.candidateQueue)\n	freeCandidates = append(freeCandidates, candidate)\n"),
     ("ranked_completer.go", "// Pushes a candidate to priority queue.\n", "var freeCandidates []*RankedCompleterCandidate\n\n// Pushes a candidate to priority queue.\n")],
    '''
func main() {
	a := automaton([]kv{{"ab", 1}, {"b", 2}, {"bc", 4}, {"da", 1}})
	d := a.Build()
	g := dawg.BuildRankedGuide(a, d)
	done := make(chan bool)
	for i := 0; i < 4; i++ {
		go func() {
			c := dawg.NewRankedCompleter(d, g)
			for i := 0; i < 300; i++ {
				c.Start(d.Root())
				for c.Next() {
				}
			}
			done <- true
		}()
	}
	for i := 0; i < 4; i++ {
		<-done
	}
}
''', race=True)

bug("tool-splits-at-spaces", "C18", "a lexicon with values in which a key has a space",
    "the key ends at its first space, and what follows is taken for the value",
    [("cmd/dawgtool/main.go", '		parts := strings.Split(line, "\\t")\n		key = parts[0]\n', '		parts := strings.Fields(line)\n		key = parts[0]\n')],
    '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a 7\\t3\\nb\\t3\\n"), 0o644)
	os.WriteFile(dir+"/q", []byte("a 7\\n"), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", "-t", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%s", out)
	}
	out, err := exec.Command(dir+"/dawgtool", "-t", dir+"/q", dir+"/d").Output()
	if err != nil || string(out) != "a 7: a 7 = 3;\\n" {
		fail("%q", out)
	}
}
''')

bug("tool-trims-queries", "C18", "a query with a space at its end or beginning",
    "spaces around a query are dropped",
    [("cmd/dawgtool/main.go", "		var key string = scanner.Text()\n", "		var key string = strings.TrimSpace(scanner.Text())\n")],
    '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\na b\\n"), 0o644)
	os.WriteFile(dir+"/q", []byte("a \\n"), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", "-g", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%s", out)
	}
	out, err := exec.Command(dir+"/dawgtool", "-g", dir+"/q", dir+"/d").Output()
	if err != nil || string(out) != "a : a b = 0;\\n" {
		fail("%q", out)
	}
}
''')

bug("tool-sort-unstable", "C18", "sorting a lexicon of more than a dozen lines in which a key is repeated with different values",
    "of a repeated key not the last line's value counts",
    [("cmd/dawgtool/main.go", "		sort.SliceStable(buffer, func", "		sort.Slice(buffer, func")],
    '''
func main() {
	dir := os.Args[1]
	rng := rand.New(rand.NewSource(1))
	l, last := "", map[string]int{}
	for i := 0; i < 400; i++ {
		k := string(rune('a' + rng.Intn(20)))
		l += fmt.Sprintf("%s\\t%d\\n", k, i)
		last[k] = i
	}
	os.WriteFile(dir+"/l", []byte(l), 0o644)
	q, want := "", ""
	for c := 'a'; c < 'a'+20; c++ {
		q += string(c) + "\\n"
		want += fmt.Sprintf("%c: %c = %d;\\n", c, c, last[string(c)])
	}
	os.WriteFile(dir+"/q", []byte(q), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", "-s", "-t", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%s", out)
	}
	out, err := exec.Command(dir+"/dawgtool", "-t", dir+"/q", dir+"/d").Output()
	if err != nil || string(out) != want {
		fail("%q", out)
	}
}
''')

bug("tool-keeps-old-file-tail", "C20", "building into a file that exists and is longer",
    "what the file held beyond the new parts stays behind them",
    [("cmd/dawgtool/main.go", "		fileDictionary, err = os.Create(optDictionary)\n", "		fileDictionary, err = os.OpenFile(optDictionary, os.O_RDWR|os.O_CREATE, 0666)\n")],
    '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\nb\\n"), 0o644)
	size := func(args ...string) int64 {
		if out, err := exec.Command(dir+"/dawgtool", append(args, dir+"/l", dir+"/d")...).CombinedOutput(); err != nil {
			fail("%s", out)
		}
		s, _ := os.Stat(dir + "/d")
		return s.Size()
	}
	n := size("-b")
	size("-b", "-g", "-i")
	if m := size("-b"); m != n {
		fail("%d bytes instead of %d", m, n)
	}
}
''')

bug("tool-writes-both-guides", "C20", "asking for a guide and a ranked guide at once",
    "both guides are written, one after the other, and the index then is of the second",
    [("cmd/dawgtool/main.go", "	} else if optGuide {\n		guide = dawg.BuildGuide(d, dict)\n", "	}\n	if optGuide {\n		guide = dawg.BuildGuide(d, dict)\n")],
    '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\nb\\n"), 0o644)
	size := func(args ...string) int64 {
		if out, err := exec.Command(dir+"/dawgtool", append(args, dir+"/l", dir+"/d")...).CombinedOutput(); err != nil {
			fail("%s", out)
		}
		s, _ := os.Stat(dir + "/d")
		return s.Size()
	}
	if n, m := size("-b", "-r", "-i"), size("-b", "-r", "-g", "-i"); m != n {
		fail("%d bytes instead of %d", m, n)
	}
}
''')
