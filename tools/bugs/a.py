PRE = '''package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"io"

	"github.com/deNULL/dawg"
)

var _ = bytes.Compare
var _ = rand.Int
var _ = sort.Strings
var _ = exec.Command
var _ = strings.Repeat
var _ = io.EOF
var _ = dawg.NewDawg

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

type kv struct {
	k string
	v int32
}

func automaton(es []kv) *dawg.Dawg {
	b := dawg.NewDawgBuilder()
	for _, e := range es {
		if !b.InsertStringValue(e.k, e.v) {
			fail("refused %q", e.k)
		}
	}
	a := dawg.NewDawg()
	b.Finish(a)
	return a
}
func sorted(m map[string]int32) []kv {
	var es []kv
	for k, v := range m {
		es = append(es, kv{k, v})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	return es
}
func allFound(d *dawg.Dictionary, es []kv) {
	for _, e := range es {
		if v := d.FindString(e.k); v != e.v {
			fail("%q: %d instead of %d", e.k, v, e.v)
		}
	}
}
'''
BIG = '''
func big() []kv {
	rng := rand.New(rand.NewSource(3))
	m := map[string]int32{}
	tails := []string{"", "a", "ab", "ion", "ions", "ing", "s"}
	for len(m) < 900000 {
		k := make([]byte, 5+rng.Intn(4))
		for j := range k {
			k[j] = byte(1 + rng.Intn(255))
		}
		if rng.Intn(40) == 0 {
			for _, t := range tails {
				m[string(k[:4])+t] = 5
			}
		} else {
			m[string(k)] = int32(rng.Intn(1 << 30))
		}
	}
	return sorted(m)
}
'''
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, race=False, big=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + (BIG if big else "") + demo, race=race))

bug("rehash-forgets-leaf-first", "C05", "a build of more than 192 states, so that the table of states is rebuilt, with states that begin with an end of key shared before and after",
    "after the rebuild, states that begin with an end of key are no longer found in the table, so equal states are built twice and the automaton is not minimal",
    [("dawg_builder.go", "if db.labelPool[index] == 0 || db.basePool[index].isState() {", "if db.labelPool[index] != 0 && db.basePool[index].isState() {")],
    '''
func main() {
	var es []kv
	for i := 0; i < 2000; i++ {
		es = append(es, kv{fmt.Sprintf("%05d", i), int32(i * i % 1009)})
		es = append(es, kv{fmt.Sprintf("%05dx", i), 1})
	}
	a := automaton(es)
	// states by what they lead to
	sig := map[string]bool{}
	seen := map[uint32]bool{}
	var walk func(i uint32)
	walk = func(i uint32) {
		if seen[i] {
			return
		}
		seen[i] = true
		s := ""
		for j := i; j != 0; j = a.Sibling(j) {
			if a.IsLeaf(j) {
				s += fmt.Sprintf("=%d;", a.Value(j))
			} else {
				s += fmt.Sprintf("%d>%d;", a.Label(j), a.Child(j))
				walk(a.Child(j))
			}
		}
		if sig[s] {
			fail("two states alike: %s", s)
		}
		sig[s] = true
	}
	walk(a.Child(a.Root()))
}
''')

bug("far-link-kept", "C19", "a dictionary of more than 2^21 units in which a shared ending was placed more than 2^21 units away",
    "a shared state is linked over a distance that the unit cannot express exactly, so the shared endings lead elsewhere",
    [("dictionary_builder.go", "if (offset&upperMask == 0) || (offset&lowerMask == 0) {", "if offset&^(offsetMax<<8-1) == 0 {")],
    '''
func main() {
	es := big()
	d := automaton(es).Build()
	allFound(d, es)
}
''', big=True)

bug("new-block-loses-low-byte", "C19", "a node whose children are placed in a new block more than 2^21 units away",
    "a far new block is taken with a distance whose low byte is lost, so children of that node are not found",
    [("dictionary_builder.go", """	return db.numOfUnits() | (index & 0xff)
}

// Checks""", """	return db.numOfUnits() | baseType(db.labels[0])
}

// Checks""")],
    '''
func main() {
	es := big()
	d := automaton(es).Build()
	if d == nil {
		fail("not built")
	}
	allFound(d, es)
}
''', big=True)

bug("padding-points-at-used-offset", "C02", "an unused unit whose label is computed from an offset that some node uses, asked about with exactly that label",
    "padding units get labels that are valid children of a real node, so bytes no key continues with can be followed",
    [("dictionary_builder.go", "		if !db.extra(offset).isUsed() {\n			unusedOffsetForLabel = offset", "		if !db.extra(offset).isFixed() {\n			unusedOffsetForLabel = offset")],
    '''
func main() {
	rng := rand.New(rand.NewSource(1))
	for t := 0; t < 300; t++ {
		m := map[string]int32{}
		for i := 0; i < 60; i++ {
			k := make([]byte, 1+rng.Intn(4))
			for j := range k {
				k[j] = byte(1 + rng.Intn(255))
			}
			m[string(k)] = 1
		}
		es := sorted(m)
		d := automaton(es).Build()
		pre := map[string]bool{}
		for k := range m {
			for i := 0; i <= len(k); i++ {
				pre[k[:i]] = true
			}
		}
		for p := range pre {
			ix := d.Root()
			d.FollowString(p, &ix)
			for b := 0; b < 256; b++ {
				x := ix
				if d.Follow(byte(b), &x) != pre[p+string([]byte{byte(b)})] {
					fail("%q then %d", p, b)
				}
			}
		}
	}
}
''')

bug("order-by-signed-bytes", "C03", "neighbouring keys that differ first in bytes on both sides of 0x80",
    "keys in byte order are refused, and keys out of order accepted, where a byte of 0x80 or more meets one below",
    [("dawg_builder.go", "		if keyLabel < unitLabel {", "		if int8(keyLabel) < int8(unitLabel) {"), ("dawg_builder.go", "		} else if keyLabel > unitLabel {", "		} else if int8(keyLabel) > int8(unitLabel) {")],
    '''
func main() {
	b := dawg.NewDawgBuilder()
	if !b.InsertString("a\\x7f") || !b.InsertString("a\\x80") || b.InsertString("a\\x7f") {
		fail("order of bytes")
	}
}
''')

bug("spare-units-survive-finish", "C04", "a builder used again after Finish, with units on its free list from before",
    "the second build takes units from the free list of the first one, which no longer exist",
    [("dawg_builder.go", "	db.unusedUnits = db.unusedUnits[:0]\n\n	db.numOfStates = 1", "	db.numOfStates = 1")],
    '''
func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	b := dawg.NewDawgBuilder()
	for _, k := range []string{"apple", "banana", "cherry", "date"} {
		b.InsertString(k)
	}
	a := dawg.NewDawg()
	b.Finish(a)
	ks := []string{"alpha", "beta", "delta", "gamma"}
	for _, k := range ks {
		if !b.InsertString(k) {
			fail("refused")
		}
	}
	a2 := dawg.NewDawg()
	b.Finish(a2)
	d := a2.Build()
	for _, k := range ks {
		if !d.ContainsString(k) {
			fail("missing %s", k)
		}
	}
	if d.ContainsString("apple") {
		fail("extra")
	}
}
''')

bug("flags-survive-finish", "C04", "a builder finished into an automaton object that already held something, then used again",
    "merging flags of an earlier automaton remain set in the next one",
    [("bit_pool.go", "	pool.words = pool.words[:0]\n	pool.size = 0", "	pool.size = 0")],
    '''
func main() {
	b := dawg.NewDawgBuilder()
	a := dawg.NewDawg()
	for round := 0; round < 3; round++ {
		for _, k := range []string{"aing", "bing", "cing"} {
			b.InsertString(k)
		}
		b.Finish(a)
	}
	for i := 0; i < 40; i++ {
		b.InsertStringValue(fmt.Sprintf("%c%c", 'a'+i/10, 'a'+i%10), int32(i))
	}
	b.Finish(a)
	for i := uint32(0); i < uint32(a.Size()); i++ {
		if a.IsMerging(i) {
			fail("state %d said to be shared", i)
		}
	}
}
''')

bug("completer-restart-keeps-stack", "C06", "a completer started again before it reached the end",
    "after the keys of the new listing, the rest of the old one follows",
    [("completer.go", "	c.indexStack = c.indexStack[:0]\n	if c.guide.size != 0 {", "	if c.guide.size != 0 {")],
    '''
func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	a := automaton([]kv{{"a", 1}, {"ab", 2}, {"abc", 3}, {"b", 4}, {"bcd", 5}})
	d := a.Build()
	c := dawg.NewCompleter(d, dawg.BuildGuide(a, d))
	c.Start(d.Root())
	c.Next()
	c.Next()
	ix := d.Root()
	d.FollowString("b", &ix)
	c.StartString(ix, "b")
	got := []string{}
	for c.Next() && len(got) < 10 {
		got = append(got, c.Key())
	}
	if fmt.Sprint(got) != "[b bcd]" {
		fail("%v", got)
	}
}
''')

bug("best-value-of-shared-state", "C07", "a shared state with an end of key whose value is lower than one below it, met a second time",
    "the best value below a state met a second time is taken from its own end of key, so the order of the listing is wrong",
    [("ranked_guide_builder.go", "	for rgb.units[dictIndex].Child != 0 {\n", "	for rgb.units[dictIndex].Child != 0 && !rgb.dict.HasValue(dictIndex) {\n")],
    '''
func main() {
	a := automaton([]kv{{"axs", 1}, {"axst", 9}, {"b", 5}, {"cxs", 1}, {"cxst", 9}})
	d := a.Build()
	c := dawg.NewRankedCompleter(d, dawg.BuildRankedGuide(a, d))
	c.Start(d.Root())
	last := int32(1 << 30)
	for c.Next() {
		if c.Value() > last {
			fail("%s = %d after %d", c.Key(), c.Value(), last)
		}
		last = c.Value()
	}
}
''')

bug("ranked-restart-keeps-candidates", "C07", "a ranked completer started again before it reached the end",
    "candidates of the old listing remain in the queue of the new one",
    [("ranked_completer.go", "	rc.candidateQueue = rc.candidateQueue[:0]\n\n	if", "	if len(rc.nodes) == 0 && length == 0 {\n		rc.candidateQueue = nil\n	}\n\n	if")],
    '''
func main() {
	defer func() {
		if p := recover(); p != nil {
			fail("%v", p)
		}
	}()
	a := automaton([]kv{{"a", 1}, {"ab", 2}, {"abc", 3}, {"b", 4}, {"bcd", 5}})
	d := a.Build()
	c := dawg.NewRankedCompleter(d, dawg.BuildRankedGuide(a, d))
	c.Start(d.Root())
	c.Next()
	c.Next()
	ix := d.Root()
	d.FollowString("b", &ix)
	c.StartString(ix, "b")
	got := []string{}
	for c.Next() && len(got) < 10 {
		got = append(got, c.Key())
	}
	sort.Strings(got)
	if fmt.Sprint(got) != "[b bcd]" {
		fail("%v", got)
	}
}
''')

bug("count-of-shared-states-doubles", "C08", "a state with an end of key reached over two paths",
    "states met again are counted again, so numbers skip and the total is too large",
    [("index_builder.go", "		if ib.index.units[childIndex] == 0 {\n", "		if ib.index.units[childIndex] <= 1 {\n")],
    '''
func main() {
	a := automaton([]kv{{"aing", 1}, {"bing", 1}, {"cing", 1}, {"d", 4}})
	d := a.Build()
	g := dawg.BuildGuide(a, d)
	i := dawg.BuildIndex(d, g)
	if i.TotalCount() != 4 {
		fail("total %d", i.TotalCount())
	}
}
''')

bug("indexer-reuses-buffer", "C17", "keeping the bytes of one number while asking for another",
    "the byte slice returned for a number changes when the next number is asked for",
    [("indexer.go", "	var buf []ucharType = make([]ucharType, 0)\n", "	var buf []ucharType = idx.buf[:0]\n	defer func() { idx.buf = buf[:0] }()\n"),
     ("indexer.go", "	index *Index\n}\n\nfunc NewIndexer", "	index *Index\n	buf   []ucharType\n}\n\nfunc NewIndexer")],
    '''
func main() {
	a := automaton([]kv{{"aing", 1}, {"bing", 1}, {"cing", 1}, {"d", 4}})
	d := a.Build()
	g := dawg.BuildGuide(a, d)
	x := dawg.NewIndexer(d, g, dawg.BuildIndex(d, g))
	k := x.IndexToBytes(0)
	x.IndexToBytes(1)
	x.IndexToBytes(2)
	if string(k) != "aing" {
		fail("%s", k)
	}
}
''')

bug("guide-read-in-place", "C11", "reading a damaged guide into an object that already holds a guide at least as large",
    "a failed read leaves the object with part of the new contents",
    [("guide.go", "	var unitsBuf = make([]GuideUnit, size)\n", "	var unitsBuf = guide.units\n	if cap(unitsBuf) < size {\n		unitsBuf = make([]GuideUnit, size)\n	}\n	unitsBuf = unitsBuf[:size]\n	for i := range unitsBuf {\n		if err = binary.Read(r, binary.LittleEndian, &unitsBuf[i]); err != nil {\n			return false\n		}\n	}\n"),
     ("guide.go", "	err = binary.Read(r, binary.LittleEndian, &unitsBuf)\n	if err != nil {\n		return false\n	}\n\n	guide.units", "	guide.units")],
    '''
func main() {
	mk := func(es []kv) *dawg.Guide {
		a := automaton(es)
		return dawg.BuildGuide(a, a.Build())
	}
	g := mk([]kv{{"abc", 1}, {"b", 2}})
	h := mk([]kv{{"x", 1}, {"yz", 2}})
	var before, after, other bytes.Buffer
	g.Write(&before)
	h.Write(&other)
	if g.Read(bytes.NewReader(other.Bytes()[:other.Len()-3])) {
		fail("cut file read")
	}
	g.Write(&after)
	if !bytes.Equal(before.Bytes(), after.Bytes()) {
		fail("changed by a failed read")
	}
}
''')

bug("dictionary-reads-ahead", "C10", "two parts in one stream",
    "reading a dictionary takes more of the stream than its own bytes, so that the guide after it is not found",
    [("dictionary.go", "	err := binary.Read(r, binary.LittleEndian, &baseSize)\n", "	r = bufio.NewReader(r)\n	err := binary.Read(r, binary.LittleEndian, &baseSize)\n"),
     ("dictionary.go", 'import (\n', 'import (\n	"bufio"\n')],
    '''
func main() {
	a := automaton([]kv{{"abc", 1}, {"b", 2}})
	d := a.Build()
	var b bytes.Buffer
	d.Write(&b)
	dawg.BuildGuide(a, d).Write(&b)
	r := bytes.NewReader(b.Bytes())
	if dawg.ReadDictionary(r) == nil || dawg.ReadGuide(r) == nil {
		fail("parts in one stream")
	}
}
''')

bug("short-index-file-accepted", "C11", "an index file that ends inside its units",
    "an index that was cut short is taken as complete, with zeros for what is missing",
    [("index.go", "	err = binary.Read(r, binary.LittleEndian, &unitsBuf)\n	if err != nil {\n", "	err = binary.Read(r, binary.LittleEndian, &unitsBuf)\n	if err != nil && err != io.ErrUnexpectedEOF {\n"),
     ("index.go", "	var baseSize baseType\n	err := binary.Read", "	var baseSize baseType = 0\n	err := binary.Read")],
    '''
func main() {
	a := automaton([]kv{{"abc", 1}, {"b", 2}})
	d := a.Build()
	var b bytes.Buffer
	dawg.BuildIndex(d, dawg.BuildGuide(a, d)).Write(&b)
	for n := 0; n < b.Len(); n++ {
		if dawg.ReadIndex(bytes.NewReader(b.Bytes()[:n])) != nil {
			fail("%d of %d bytes accepted", n, b.Len())
		}
	}
}
''')

bug("leaf-and-extension-bits-swapped", "C12", "a file saved earlier, or a reader of the layout",
    "the flag for an end of key and the flag for an extended offset change places: files still load after being saved by the same version, but not those saved before",
    [("dictionary_unit.go", "const hasLeafBit = baseType(1) << 8\nconst extensionBit = baseType(1) << 9", "const hasLeafBit = baseType(1) << 9\nconst extensionBit = baseType(1) << 8"),
     ("dictionary_unit.go", ">> 10) << ((base & extensionBit) >> 6)", ">> 10) << ((base & extensionBit) >> 5)")],
    '''
func main() {
	a := automaton([]kv{{"a", 1}})
	var b bytes.Buffer
	a.Build().Write(&b)
	f := b.Bytes()[4:]
	u := func(i uint32) uint32 {
		return uint32(f[4*i]) | uint32(f[4*i+1])<<8 | uint32(f[4*i+2])<<16 | uint32(f[4*i+3])<<24
	}
	i := (u(0) >> 10) ^ 'a'
	if u(i)&0xff != 'a' || u(i)>>8&1 != 1 {
		fail("layout")
	}
}
''')

bug("decoder-remaps-after-long-window", "C13", "Greek followed by a character that starts a long window, then a Greek character",
    "the decoder remaps the auxiliary alphabet when entering a long window while the encoder does not",
    [("utfc.go", "			auxOffs = offs\n			offs = cp & offsMask21Bit", "			if auxOffs = offs; offs == 0x0380 {\n				auxOffs = getAuxOffset(offs)\n			}\n			offs = cp & offsMask21Bit")],
    '''
func main() {
	for _, s := range []string{"\\u0430\\u4e2d\\u0405", "\\u03b1\\u4e2d\\u0385\\u03b2", "\\u3041\\u4e00\\u3001"} {
		for _, p := range []string{"", "\\u0405", "\\u0385", "\\u0e00"} {
			t := p + s + p
			if dawg.UtfcDecode(dawg.UtfcEncode(t)) != t {
				fail("%q", t)
			}
		}
	}
}
''')

bug("copied-state-forgets-mode", "C15", "an encoder state copied while in the long mode",
    "the copy continues in the short mode",
    [("utfc.go", "	st.auxOffs = src.auxOffs\n	st.is21Bit = src.is21Bit\n", "	st.auxOffs = src.auxOffs\n	st.is21Bit = st.is21Bit && src.is21Bit\n")],
    '''
type bb struct{ b []byte }

func (x *bb) Follow(c byte) bool { x.b = append(x.b, c); return true }
func main() {
	st := dawg.NewUtfcState()
	st.Follow(0x4e2d, &bb{})
	cp := dawg.NewUtfcState()
	cp.Copy(st)
	x, y := &bb{}, &bb{}
	st.Follow(0x4e2e, x)
	cp.Follow(0x4e2e, y)
	if !bytes.Equal(x.b, y.b) {
		fail("%x %x", x.b, y.b)
	}
}
''')

bug("zero-byte-in-long-window", "C14", "a character of the current long window whose high byte is zero",
    "a null byte is emitted, so the encoding cannot be a dictionary key",
    [("utfc.go", "			} else if hi == 0 {\n				if !f.Follow(marker00) || !f.Follow(lo) {\n", "			} else if hi == 0 && st.offs != 0x10000 {\n				if !f.Follow(marker00) || !f.Follow(lo) {\n")],
    '''
func main() {
	e := dawg.UtfcEncode("\\U00012700\\U00012605")
	if bytes.IndexByte(e, 0) >= 0 {
		fail("%x", e)
	}
}
''')

bug("greek-window-moved", "C16", "Greek letters after another alphabet has taken the current window",
    "another part of the Greek alphabet is coded in one byte; both directions agree, but stored encodings no longer match",
    [("utfc.go", "	0x0380: 0x0391, // Greek", "	0x0380: 0x0390, // Greek")],
    '''
func main() {
	e := dawg.UtfcEncode("\\u03b1\\u0431\\u03b2\\u03b3")
	if fmt.Sprintf("%x", e) != "83b18431e1e2" {
		fail("%x", e)
	}
}
''')

bug("tool-sort-forgets-prefixes", "C18", "sorting with -u a lexicon in which one key is a prefix of another and comes later",
    "with -u -s a key may stay behind a longer one it is a prefix of, and the build fails",
    [("cmd/dawgtool/main.go", "			if len(bytes1) < len(bytes2) {\n				return true\n			}\n			return false\n", "			return false\n")],
    '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("abc\\nab\\na\\n"), 0o644)
	os.WriteFile(dir+"/q", []byte("abcd\\n"), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", "-s", "-u", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%s", out)
	}
	out, err := exec.Command(dir+"/dawgtool", "-u", dir+"/q", dir+"/d").Output()
	if err != nil || string(out) != "abcd: a = 0; ab = 0; abc = 0;\\n" {
		fail("%q", out)
	}
}
''')
bug("tool-clamp-wraps", "C18", "a lexicon value of 2^31 exactly (or any multiple of 2^32 less one)",
    "a value just too large is stored as it is and becomes negative, so the build fails",
    [("cmd/dawgtool/main.go", "		} else if value > dawg.MaxValue {", "		} else if value > dawg.MaxValue+1 {")],
    '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\t2147483648\\nb\\t3\\n"), 0o644)
	os.WriteFile(dir+"/q", []byte("a\\n"), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", "-t", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%s", out)
	}
	out, err := exec.Command(dir+"/dawgtool", "-t", dir+"/q", dir+"/d").Output()
	if err != nil || string(out) != "a: a = 2147483647;\\n" {
		fail("%q", out)
	}
}
''')
