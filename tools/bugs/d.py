import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
PRE = _b.PRE
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, race=race))
T = "cmd/dawgtool/main.go"

bug("build-remembers", "C21", "building two dictionaries from one automaton and then reading another file into one of them",
    "both are one object, so that reading into one replaces the other",
    [("dawg.go", "	flagPool               *BitPool\n	numOfStates            sizeType\n", "	flagPool               *BitPool\n	built                  *Dictionary\n	numOfStates            sizeType\n"),
     ("dictionary_builder.go", "	if !builder.BuildDictionary() {\n		return nil\n	}\n	return builder.dict\n}\n\nfunc (dawg *Dawg) BuildWithUnused", "	if dawg.built != nil {\n		return dawg.built\n	}\n	if !builder.BuildDictionary() {\n		return nil\n	}\n	dawg.built = builder.dict\n	return builder.dict\n}\n\nfunc (dawg *Dawg) BuildWithUnused"),
     ("dawg_builder.go", "	dawg.numOfStates = db.numOfStates\n", "	dawg.built = nil\n	dawg.numOfStates = db.numOfStates\n"),
     ("dawg.go", "	dawg.flagPool.clear()\n", "	dawg.flagPool.clear()\n	dawg.built = nil\n")], '''
func main() {
	a := automaton([]kv{{"a", 1}})
	x, y := a.Build(), a.Build()
	var b bytes.Buffer
	automaton([]kv{{"b", 2}}).Build().Write(&b)
	if !x.Read(&b) || x.FindString("b") != 2 {
		fail("not read")
	}
	if y.FindString("a") != 1 || y.FindString("b") != -1 {
		fail("reading into one dictionary changed another")
	}
}
''')
bug("ranked-completer-own-guide", "C21", "a ranked completer that was made before its guide and dictionary were read again",
    "the completer goes on with the guide as it was when the completer was made",
    [("ranked_completer.go", "	return &RankedCompleter{\n		dict:  dict,\n		guide: guide,\n", "	own := *guide\n	return &RankedCompleter{\n		dict:  dict,\n		guide: &own,\n")], '''
func main() {
	load := func(es []kv, d *dawg.Dictionary, g *dawg.RankedGuide) {
		a := automaton(es)
		x := a.Build()
		var b bytes.Buffer
		x.Write(&b)
		dawg.BuildRankedGuide(a, x).Write(&b)
		if !d.Read(&b) || !g.Read(&b) {
			fail("not read")
		}
	}
	d, g := dawg.NewDictionary(), dawg.NewRankedGuide()
	load([]kv{{"a", 1}, {"b", 2}}, d, g)
	c := dawg.NewRankedCompleter(d, g)
	load([]kv{{"ab", 1}, {"c", 3}, {"cd", 9}}, d, g)
	c.Start(d.Root())
	var got []string
	for c.Next() {
		got = append(got, c.Key())
	}
	if fmt.Sprint(got) != "[cd c ab]" {
		fail("%v", got)
	}
}
''')
bug("guide-clear-keeps-units", "C21", "saving a ranked guide that has been cleared",
    "the count says there are no units, and the old units follow it all the same",
    [("ranked_guide.go", "	rg.setUnits(rg.units[:0])\n", "	rg.size = 0\n")], '''
func main() {
	a := automaton([]kv{{"a", 1}, {"b", 2}})
	d := a.Build()
	g := dawg.BuildRankedGuide(a, d)
	g.Clear()
	var b bytes.Buffer
	if !g.Write(&b) || b.Len() != 4 || g.FileSize() != 4 {
		fail("%d bytes", b.Len())
	}
}
''')
bug("index-kept-with-guide", "C21", "making an index for two dictionaries through one guide that is cleared or read again in between",
    "an index that was made once for a guide is given out again, though the guide leads through other keys now",
    [("index_builder.go", "	builder := NewIndexBuilder(dict, guide, &Index{})\n", "	if g, ok := guide.(*Guide); ok {\n		if g.index == nil || len(g.index.units) != len(dict.units) {\n			g.index = &Index{}\n			if !NewIndexBuilder(dict, guide, g.index).Build() {\n				return nil\n			}\n		}\n		return &Index{units: append([]IndexUnit{}, g.index.units...)}\n	}\n	builder := NewIndexBuilder(dict, guide, &Index{})\n"),
     ("guide.go", "	units []GuideUnit\n	size  sizeType\n}", "	units []GuideUnit\n	size  sizeType\n	index *Index\n}")], '''
func main() {
	x := automaton([]kv{{"a", 1}, {"b", 2}})
	d := x.Build()
	g := dawg.BuildGuide(x, d)
	dawg.BuildIndex(d, g)
	y := automaton([]kv{{"a", 1}, {"b", 2}, {"c", 3}})
	e := y.Build()
	var b bytes.Buffer
	dawg.BuildGuide(y, e).Write(&b)
	if !g.Read(&b) {
		fail("not read")
	}
	if n := dawg.BuildIndex(e, g).TotalCount(); n != 3 {
		fail("%d keys", n)
	}
}
''')
bug("finish-shares-flags", "C21", "one builder finished into three automata",
    "the third automaton marks its shared states in the first one's record",
    [("dawg_builder.go", "	dawg.flagPool, db.flagPool = db.flagPool, dawg.flagPool\n", "	dawg.flagPool, db.flagPool, db.spare = db.flagPool, db.spare, db.flagPool\n	if db.flagPool == nil {\n		db.flagPool = NewBitPool()\n	}\n"),
     ("dawg_builder.go", "	flagPool               *BitPool\n", "	flagPool               *BitPool\n	spare                  *BitPool\n")], '''
func main() {
	b := dawg.NewDawgBuilder()
	var as []*dawg.Dawg
	var first []byte
	for _, es := range [][]kv{{{"aing", 1}, {"bing", 1}, {"cing", 1}}, {{"x", 1}}, {{"p", 1}, {"q", 2}, {"r", 3}}} {
		for _, e := range es {
			b.InsertStringValue(e.k, e.v)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		as = append(as, a)
		var f bytes.Buffer
		as[0].Build().Write(&f)
		if first == nil {
			first = append(first, f.Bytes()...)
		} else if !bytes.Equal(first, f.Bytes()) {
			fail("the first automaton has changed")
		}
	}
}
''')
bug("unused-units-added-up", "C12", "a variable for the number of unused units that is not zero before the call",
    "the number is added to what the variable held",
    [("dictionary_builder.go", "	*numOfUnusedUnits = builder.numOfUnusedUnits\n", "	*numOfUnusedUnits += builder.numOfUnusedUnits\n")], '''
func main() {
	a := automaton([]kv{{"a", 1}})
	var n, m uint32
	a.BuildWithUnused(&n)
	m = 5
	a.BuildWithUnused(&m)
	if n != m {
		fail("%d and %d unused units", n, m)
	}
}
''')
bug("merging-states-in-16-bits", "C05", "more than 65536 states that several others lead to",
    "no more than that are reported",
    [("dawg_builder.go", "	dawg.numOfMergingStates = db.numOfMergingStates\n", "	dawg.numOfMergingStates = db.numOfMergingStates\n	if dawg.numOfMergingStates > 1<<16 {\n		dawg.numOfMergingStates = 1 << 16\n	}\n")], '''
func main() {
	m := map[string]int32{}
	n := 70000
	for i := 0; i < n; i++ {
		for j := 0; j < 2; j++ {
			m[string([]byte{byte('a' + j), byte(1 + i/4/251/251), byte(1 + i/4/251%251), byte(1 + i/4%251), byte(1 + j*60 + 10*(i%4)), 'x'})] = int32(i)
		}
	}
	if s := automaton(sorted(m)).NumOfMergingStates(); s < n {
		fail("%d merging states", s)
	}
}
''')
bug("flags-left-behind", "C05", "an automaton finished into again after one with many shared states",
    "states are taken for shared ones that were so in an earlier automaton",
    [("bit_pool.go", "	pool.words = pool.words[:0]\n	pool.size = 0", "	pool.size = 0")], '''
func main() {
	var es []kv
	for c := 'a'; c <= 'z'; c++ {
		es = append(es, kv{string(c) + "ing", 1}, kv{string(c) + "ings", int32(c & 3)})
	}
	var es2 []kv
	for c := 'a'; c <= 'z'; c++ {
		es2 = append(es2, kv{string(c), 1000 + int32(c)}, kv{string(c) + string(c), int32(c) * 17})
	}
	b := dawg.NewDawgBuilder()
	a := dawg.NewDawg()
	for _, l := range [][]kv{es, es, es, es2, es2} {
		for _, e := range l {
			b.InsertStringValue(e.k, e.v)
		}
		b.Finish(a)
	}
	for i := uint32(1); i < uint32(a.Size()); i++ {
		if a.IsMerging(i) {
			fail("state %d is not shared", i)
		}
	}
}
''')
bug("index-stops-deep-down", "C08", "keys of more than 20000 bytes",
    "keys below that depth are not counted in the index",
    [("index_builder.go", "	guide SomeGuide\n	index *Index\n}\n\nfunc NewIndexBuilder", "	guide SomeGuide\n	index *Index\n	depth int\n}\n\nfunc NewIndexBuilder"),
     ("index_builder.go", "		if ib.index.units[childIndex] == 0 {\n			if !ib.buildIndices(childIndex) {\n				return false\n			}\n		}\n", "		if ib.index.units[childIndex] == 0 && ib.depth < 20000 {\n			ib.depth++\n			if !ib.buildIndices(childIndex) {\n				return false\n			}\n			ib.depth--\n		}\n")], '''
func main() {
	a := automaton([]kv{{strings.Repeat("a", 19999), 1}, {strings.Repeat("a", 30000), 1}, {"b", 2}})
	d := a.Build()
	g := dawg.BuildGuide(a, d)
	if n := dawg.BuildIndex(d, g).TotalCount(); n != 3 {
		fail("%d keys", n)
	}
}
''')
