import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
PRE = _b.PRE
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, race=race))
T = "cmd/dawgtool/main.go"

bug("key-length-in-16-bits", "C03", "keys of 65536 bytes or more",
    "only as many bytes of a very long key are inserted as the lower 16 bits of its length say",
    [("dawg_builder.go", "	var index baseType = 0\n	var keyPos sizeType = 0\n", "	length &= 0xffff\n	var index baseType = 0\n	var keyPos sizeType = 0\n")], '''
func main() {
	es := []kv{{"a", 1}, {strings.Repeat("b", 65537), 2}}
	allFound(automaton(es).Build(), es)
}
''')
bug("decoder-stops-at-64k", "C13", "an encoded text of more than 65536 bytes",
    "the rest of a long text is not decoded",
    [("utfc.go", "	for i < len(buf) {\n", "	for i < len(buf) && i < 65536 {\n")], '''
func main() {
	s := strings.Repeat("да", 40000)
	if dawg.UtfcDecode(dawg.UtfcEncode(s)) != s {
		fail("a text of %d bytes is not decoded", len(s))
	}
}
''')
bug("encoder-starts-afresh", "C15", "a text with a character that starts exactly at byte 32768",
    "the encoder forgets its state in the middle of a long text, so that the result is not that of encoding its parts in turn",
    [("utfc.go", "	for _, ch := range str {\n", "	for pos, ch := range str {\n		if pos == 1<<15 {\n			st.Clear()\n		}\n")], '''
func main() {
	s := "aa" + strings.Repeat("ひ", 20000)
	if n := len(dawg.UtfcEncode(s)); n != 2*len(dawg.UtfcEncode("aa"+strings.Repeat("ひ", 10001)))-len(dawg.UtfcEncode("aaひひ")) {
		fail("the text is not encoded alike all along")
	}
}
''')
bug("count-in-20-bits", "C19", "a branch with more than 2^20 keys below it",
    "the numbers of keys behind such a branch are wrong",
    [("indexer.go", "			var count baseType = idx.index.ChildCount(childIndex)\n", "			var count baseType = idx.index.ChildCount(childIndex) & 0xfffff\n")], '''
func main() {
	b := dawg.NewDawgBuilder()
	n := 0
	var put func(k []byte, depth int)
	put = func(k []byte, depth int) {
		if depth == 0 {
			b.InsertStringValue(string(k), 1)
			n++
			return
		}
		for c := 0; c < 11; c++ {
			put(append(k, byte('a'+c)), depth-1)
		}
	}
	put([]byte("a"), 6)
	b.InsertStringValue("b", 1)
	a := dawg.NewDawg()
	b.Finish(a)
	d := a.Build()
	g := dawg.BuildGuide(a, d)
	x := dawg.BuildIndex(d, g)
	if got := dawg.NewIndexer(d, g, x).IndexToString(uint32(n)); got != "b" {
		fail("key %d is %q", n, got)
	}
}
''')
bug("tool-numbers-with-a-base", "C18", "a value written with a zero in front",
    "such a value is taken as octal",
    [(T, "		value, err := strconv.Atoi(parts[1])", "		v64, err := strconv.ParseInt(parts[1], 0, 64)\n		value := int(v64)")], '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\t010\\n"), 0o644)
	os.WriteFile(dir+"/q", []byte("a\\n"), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", "-t", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%s", out)
	}
	out, err := exec.Command(dir+"/dawgtool", dir+"/q", dir+"/d").Output()
	if err != nil || string(out) != "a: a = 10;\\n" {
		fail("%q", out)
	}
}
''')
bug("full-states-not-merging", "C05", "a state with 256 transitions that several others lead to",
    "such a state is not counted as a merging state, nor kept apart by the guide of shared states",
    [("dawg_builder.go", "			if !db.flagPool.get(matchedIndex) {\n", "			if numOfSiblings < 256 && !db.flagPool.get(matchedIndex) {\n")], '''
func main() {
	var es []kv
	for _, h := range []string{"a", "b", "c"} {
		es = append(es, kv{h, 1})
		for x := 1; x < 256; x++ {
			es = append(es, kv{h + string([]byte{byte(x)}), 1})
		}
	}
	a := automaton(es)
	if n := a.NumOfMergingStates(); n != 2 {
		fail("%d merging states", n)
	}
}
''')
bug("lines-of-four-thousand", "C18", "a line or a query of more than 4000 bytes",
    "the tool gives up on it",
    [(T, "	scanner = bufio.NewScanner(fileLexicon)\n", "	scanner = bufio.NewScanner(fileLexicon)\n	scanner.Buffer(make([]byte, 0, 100), 4000)\n")], '''
func main() {
	dir := os.Args[1]
	k := strings.Repeat("k", 5000)
	os.WriteFile(dir+"/l", []byte(k+"\\n"), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%s", out)
	}
	out, err := exec.Command(dir+"/dawgtool", dir+"/l", dir+"/d").Output()
	if err != nil || string(out) != k+": "+k+" = 0;\\n" {
		fail("%q", out)
	}
}
''')
bug("first-unit-written-unchecked", "C11", "a device that fails once, right after the count of units, and then works again",
    "a ranked guide with a hole in it is reported as written",
    [("ranked_guide.go", "	err = binary.Write(w, binary.LittleEndian, rg.units)\n	if err != nil {\n		return false\n	}\n", "	if rg.size > 0 {\n		binary.Write(w, binary.LittleEndian, rg.units[:1])\n		err = binary.Write(w, binary.LittleEndian, rg.units[1:])\n	}\n	if err != nil {\n		return false\n	}\n")], '''
type once struct {
	at, n int
	done  bool
}

func (o *once) Write(p []byte) (int, error) {
	if o.n >= o.at && !o.done {
		o.done = true
		return 0, fmt.Errorf("not now")
	}
	o.n += len(p)
	return len(p), nil
}
func main() {
	a := automaton([]kv{{"a", 1}, {"ab", 2}})
	d := a.Build()
	g := dawg.BuildRankedGuide(a, d)
	for at := 0; at < g.TotalSize(); at++ {
		w := &once{at: at}
		if ok := g.Write(w); ok == w.done {
			fail("failure at %d, reported %v", at, ok)
		}
	}
}
''')
bug("tool-counts-blank-lines", "C20", "a lexicon with blank lines, -t and -s",
    "blank lines are counted as keys in the report",
    [(T, "				keyCount++\n				if keyCount%10000 == 0 {\n					fmt.Printf(\"no. keys: %d\\n\", keyCount)\n				}\n			}\n		}\n	} else {", "				if keyCount++; keyCount%10000 == 0 {\n					fmt.Printf(\"no. keys: %d\\n\", keyCount)\n				}\n			} else if optTab {\n				keyCount++\n			}\n		}\n	} else {")], '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\t1\\n\\nb\\t2\\n"), 0o644)
	out, err := exec.Command(dir+"/dawgtool", "-b", "-s", "-t", dir+"/l", dir+"/d").CombinedOutput()
	if err != nil || !strings.Contains(string(out), "no. keys: 2\\n") {
		fail("%s", out)
	}
}
''')
bug("tool-drops-repeated-lines", "C20", "a lexicon with the same line twice, and -s",
    "the second of them is not counted",
    [(T, "		for i := 0; i < len(buffer); i++ {\n			if processLine(buffer[i]) {\n", "		for i := 0; i < len(buffer); i++ {\n			if i > 0 && buffer[i] == buffer[i-1] {\n				continue\n			}\n			if processLine(buffer[i]) {\n")], '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\nb\\na\\n"), 0o644)
	out, err := exec.Command(dir+"/dawgtool", "-b", "-s", dir+"/l", dir+"/d").CombinedOutput()
	if err != nil || !strings.Contains(string(out), "no. keys: 3\\n") {
		fail("%s", out)
	}
}
''')
bug("completer-limits-depth", "C06", "keys of more than 32768 bytes below the place where the completer starts",
    "the completer stops there and lists no further keys",
    [("completer.go", "	c.path[len(c.path)-1] = label\n	c.path = append(c.path, 0)\n	c.indexStack = append(c.indexStack, *index)\n", "	c.path[len(c.path)-1] = label\n	if len(c.path) > 32768 {\n		return false\n	}\n	c.path = append(c.path, 0)\n	c.indexStack = append(c.indexStack, *index)\n")], '''
func main() {
	a := automaton([]kv{{strings.Repeat("a", 39999), 1}, {strings.Repeat("a", 40000), 1}, {"b", 2}})
	d := a.Build()
	c := dawg.NewCompleter(d, dawg.BuildGuide(a, d))
	c.Start(d.Root())
	n := 0
	for c.Next() {
		n++
	}
	if n != 3 {
		fail("%d keys", n)
	}
}
''')
bug("rehash-skips-first-state", "C05", "so many states that the table grows while the first state stored is still of use",
    "the first state is not found again after the table has grown, so that an equal one is built twice",
    [("dawg_builder.go", "	for i := 1; i < len(db.basePool); i += 1 {", "	for i := 2; i < len(db.basePool); i += 1 {")], '''
func main() {
	m := map[string]int32{"aaaaaaaa": 77, "zzzzzzzz": 77}
	rng := rand.New(rand.NewSource(1))
	for len(m) < 20000 {
		k := make([]byte, 6)
		for j := range k {
			k[j] = byte('b' + rng.Intn(20))
		}
		m[string(k)] = int32(1000 + rng.Intn(1<<20))
	}
	a := automaton(sorted(m))
	state := func(k string) uint32 {
		i := a.Root()
		for j := 0; j < len(k); j++ {
			for i = a.Child(i); a.Label(i) != k[j]; i = a.Sibling(i) {
				if i == 0 {
					fail("%q is not there", k)
				}
			}
		}
		return a.Child(i)
	}
	if x, y := state("aaaaaaaa"), state("zzzzzzzz"); x != y {
		fail("two states for the same value: %d %d", x, y)
	}
}
''')
