import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
PRE = _b.PRE
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, race=race))
T = "cmd/dawgtool/main.go"
TOGETHER = '''
func together(f func(g int)) {
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func(g int) {
			f(g)
			done <- true
		}(g)
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}
'''
bug("size-remembered-lazily", "C17", "goroutines asking a freshly built dictionary for its size at the same time",
    "the first question writes the answer into the shared dictionary",
    [("dictionary.go", "	units []DictionaryUnit\n	size  sizeType\n}", "	units []DictionaryUnit\n	size  sizeType\n	total sizeType\n}"),
     ("dictionary.go", "	return unitSize * dict.size\n", "	if dict.total != unitSize*dict.size {\n		dict.total = unitSize * dict.size\n	}\n	return dict.total\n")],
    TOGETHER + '''
func main() {
	d := automaton([]kv{{"a", 1}, {"b", 2}}).Build()
	together(func(g int) { d.TotalSize() })
}
''', race=True)
bug("count-remembered-in-index", "C17", "goroutines asking one index for the number of keys at the same time",
    "each question writes into the shared index",
    [("index.go", "	units []IndexUnit\n}", "	units []IndexUnit\n	total baseType\n}"),
     ("index.go", "	return baseType(index.units[0])\n", "	index.total = baseType(index.units[0])\n	return index.total\n")],
    TOGETHER + '''
func main() {
	a := automaton([]kv{{"a", 1}, {"b", 2}})
	d := a.Build()
	ix := dawg.NewIndexer(d, dawg.BuildGuide(a, d), dawg.BuildIndex(d, dawg.BuildGuide(a, d)))
	together(func(g int) {
		if ix.TotalCount() != 2 {
			fail("wrong count")
		}
	})
}
''', race=True)
bug("copy-touches-source", "C17", "goroutines copying one encoder state at the same time",
    "copying writes to the state that is copied",
    [("utfc.go", "func (st *UtfcState) Copy(src *UtfcState) {\n", "func (st *UtfcState) Copy(src *UtfcState) {\n	src.is21Bit = src.is21Bit && src.offs != 0 || src.is21Bit\n")],
    TOGETHER + '''
func main() {
	src := dawg.NewUtfcState()
	together(func(g int) { dawg.NewUtfcState().Copy(src) })
}
''', race=True)
bug("refusals-counted", "C17", "followers that refuse a byte, in several goroutines",
    "an unguarded counter of the package is written by each refusal",
    [("utfc.go", "func UtfcFollow(str string, f UtfcFollower) bool {", "var refusals int\n\nfunc UtfcFollow(str string, f UtfcFollower) bool {"),
     ("utfc.go", "		if !st.Follow(ch, f) {\n", "		if !st.Follow(ch, f) {\n			refusals++\n")],
    TOGETHER + '''
type no struct{}

func (no) Follow(b byte) bool { return false }
func main() {
	together(func(g int) {
		if dawg.UtfcFollow("abc", no{}) {
			fail("taken")
		}
	})
}
''', race=True)
bug("link-table-recycled", "C17", "two ranked guides being built at the same time, of dictionaries with states of several transitions",
    "both sort their transitions in one table",
    [("ranked_guide_builder.go", "		dict:  dict,\n		guide: &RankedGuide{},\n	}\n", "		dict:  dict,\n		guide: &RankedGuide{},\n		links: spareLinks[:0],\n	}\n	defer func() { spareLinks = builder.links }()\n"),
     ("ranked_guide_builder.go", "type RankedGuideBuilder struct {", "var spareLinks []RankedGuideLink\n\ntype RankedGuideBuilder struct {")],
    TOGETHER + '''
func main() {
	var es []kv
	for i := 0; i < 3000; i++ {
		es = append(es, kv{fmt.Sprintf("%04d", i), int32(i * 7 % 1000)})
	}
	a := automaton(es)
	d := a.Build()
	dawg.BuildRankedGuide(a, d)
	together(func(g int) {
		for i := 0; i < 10; i++ {
			if dawg.BuildRankedGuide(a, d) == nil {
				fail("not built")
			}
		}
	})
}
''', race=True)
bug("value-place-remembered", "C17", "values read from one dictionary by several goroutines",
    "the place of the last value read is kept in the shared dictionary",
    [("dictionary.go", "	units []DictionaryUnit\n	size  sizeType\n}", "	units []DictionaryUnit\n	size  sizeType\n	last  baseType\n}"),
     ("dictionary.go", "	return dictValue(dict.units[index^dictOffset(dict.units[index])])", "	dict.last = index ^ dictOffset(dict.units[index])\n	return dictValue(dict.units[dict.last])")],
    TOGETHER + '''
func main() {
	d := automaton([]kv{{"a", 1}, {"b", 2}, {"c", 3}}).Build()
	together(func(g int) {
		for i := 0; i < 20000; i++ {
			k := string(rune('a' + (g+i)%3))
			if int(d.FindString(k)) != (g+i)%3+1 {
				fail("wrong value")
			}
		}
	})
}
''', race=True)
