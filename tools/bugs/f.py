import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
PRE = _b.PRE
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, race=race))
T = "cmd/dawgtool/main.go"
TOOL = '''
func run(dir string, args ...string) string {
	out, err := exec.Command(dir+"/dawgtool", args...).CombinedOutput()
	if err != nil {
		fail("%v: %s", err, out)
	}
	return string(out)
}
func tool() string { return os.Args[1] }
'''
bug("block-scan-stops-early", "C12", "a block in which every offset but the last is used and a unit is left over",
    "the left-over unit is labelled as if offset 0 were free, so that a byte no key has there can be followed",
    [("dictionary_builder.go", "	var unusedOffsetForLabel baseType = 0\n	for offset := begin; offset != end; offset++ {", "	var unusedOffsetForLabel baseType = 0\n	for offset := begin; offset != end-1; offset++ {")], '''
func main() {
	rng := rand.New(rand.NewSource(1))
	for round := 0; round < 60; round++ {
		set := map[string]int32{}
		for i := 0; i < 8; i++ {
			h := byte(1 + rng.Intn(255))
			if rng.Intn(2) == 0 {
				set[string([]byte{h})] = 7
			}
			share := rng.Intn(2) == 0
			for b := 1; b < 256; b++ {
				v := int32(b)
				if !share {
					v = int32(rng.Intn(1 << 20))
				}
				set[string([]byte{h, byte(b)})] = v
				if rng.Intn(40) == 0 || share && b > 253 {
					for x := 1; x < 256; x++ {
						set[string([]byte{h, byte(b), byte(x)})] = int32(x & 1)
					}
				}
			}
		}
		d := automaton(sorted(set)).Build()
		next := map[string]map[byte]bool{}
		for k := range set {
			for i := 0; i <= len(k); i++ {
				if next[k[:i]] == nil {
					next[k[:i]] = map[byte]bool{}
				}
				if i < len(k) {
					next[k[:i]][k[i]] = true
				}
			}
		}
		for p, bs := range next {
			at := d.Root()
			d.FollowString(p, &at)
			for c := 0; c < 256; c++ {
				x := at
				if d.Follow(byte(c), &x) != bs[byte(c)] {
					fail("a wrong step: byte %d after %q", c, p)
				}
			}
		}
	}
}
''')
bug("list-of-65536", "C18", "-i and more than 65536 keys",
    "the numbered list is cut",
    [(T, "		for i := 0; i < int(indexer.TotalCount()); i++ {", "		for i := 0; i < int(indexer.TotalCount()&0xffff); i++ {")], TOOL + '''
func main() {
	dir := tool()
	var b strings.Builder
	for i := 0; i < 66000; i++ {
		fmt.Fprintf(&b, "%06d\\n", i)
	}
	os.WriteFile(dir+"/l", []byte(b.String()), 0o644)
	os.WriteFile(dir+"/q", []byte("000001\\n"), 0o644)
	run(dir, "-b", "-g", "-i", dir+"/l", dir+"/d")
	out := run(dir, "-g", "-i", dir+"/q", dir+"/d")
	if !strings.Contains(out, "\\n65999: 065999\\n") {
		fail("the list has %d lines", strings.Count(out, "\\n"))
	}
}
''')
bug("lines-counted-in-16-bits", "C20", "a lexicon of more than 65536 lines",
    "the report gives the number of lines less 65536",
    [(T, "	fmt.Printf(\"no. keys: %d\\n\", keyCount)\n	fmt.Printf(\"no. states", "	fmt.Printf(\"no. keys: %d\\n\", uint16(keyCount))\n	fmt.Printf(\"no. states")], TOOL + '''
func main() {
	dir := tool()
	os.WriteFile(dir+"/l", []byte(strings.Repeat("a\\n", 66000)), 0o644)
	out := run(dir, "-b", dir+"/l", dir+"/d")
	if !strings.Contains(out, "no. keys: 66000\\nno. states") {
		fail("%s", out)
	}
}
''')
bug("deep-completer-not-restarted", "C06", "starting a completer again while it stands at a key of more than 4096 bytes",
    "the new start is not taken",
    [("completer.go", "	c.indexStack = c.indexStack[:0]\n", "	if len(c.indexStack) <= 4096 {\n		c.indexStack = c.indexStack[:0]\n	}\n")], '''
func main() {
	a := automaton([]kv{{strings.Repeat("a", 5000), 1}, {"b", 2}})
	d := a.Build()
	c := dawg.NewCompleter(d, dawg.BuildGuide(a, d))
	c.Start(d.Root())
	c.Next()
	at := d.Root()
	d.Follow('b', &at)
	c.StartString(at, "b")
	n := 0
	for n < 10 && c.Next() {
		n++
		if c.Key() != "b" {
			fail("%q", c.Key())
		}
	}
	if n != 1 {
		fail("%d keys", n)
	}
}
''')
bug("guide-built-over-old-units", "C04", "building a guide into an object that held one at least as large",
    "labels of the old guide show through",
    [("guide_builder.go", "	gb.units = make([]GuideUnit, gb.dict.size)\n", "	if cap(gb.guide.units) >= gb.dict.size {\n		gb.units = gb.guide.units[:gb.dict.size]\n	} else {\n		gb.units = make([]GuideUnit, gb.dict.size)\n	}\n")], '''
func main() {
	x := automaton([]kv{{"a", 1}, {"b", 2}, {"c", 3}, {"d", 3}})
	g := dawg.NewGuide()
	dawg.NewGuideBuilder(x, x.Build(), g).Build()
	y := automaton([]kv{{"b", 2}, {"bc", 7}})
	d := y.Build()
	if !dawg.NewGuideBuilder(y, d, g).Build() {
		fail("not built")
	}
	var p, q bytes.Buffer
	g.Write(&p)
	dawg.BuildGuide(y, d).Write(&q)
	if !bytes.Equal(p.Bytes(), q.Bytes()) {
		fail("the old guide shows through")
	}
}
''')
bug("steps-of-two-in-the-table", "C05", "a table of states that grows while two states want the same slot and the size is such that a step of two passes over the first free one",
    "states recorded anew are not found by the search in steps of one, and equal states are kept twice",
    [("dawg_builder.go", "		// There must not be the same base value.\n		*hashId = (*hashId + 1) % baseType(len(db.hashTable))\n", "		// There must not be the same base value.\n		*hashId = (*hashId + 2) % baseType(len(db.hashTable))\n")], '''
func main() {
	rng := rand.New(rand.NewSource(5))
	for round := 0; round < 40; round++ {
		m := map[string]int32{}
		for len(m) < 3000 {
			k := make([]byte, 2+rng.Intn(6))
			for j := range k {
				k[j] = byte('a' + rng.Intn(5))
			}
			m[string(k)] = int32(rng.Intn(3))
		}
		es := sorted(m)
		count := func(n int) int {
			b := dawg.NewDawgBuilderWithSize(n)
			for _, e := range es {
				b.InsertStringValue(e.k, e.v)
			}
			a := dawg.NewDawg()
			b.Finish(a)
			return a.NumOfStates()
		}
		if x, y := count(1<<16), count(8); x != y {
			fail("%d states and %d", x, y)
		}
	}
}
''')
