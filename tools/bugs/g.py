import importlib.util, os
_s = importlib.util.spec_from_file_location("b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_b = importlib.util.module_from_spec(_s); _s.loader.exec_module(_b)
PRE = _b.PRE
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, race=False):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo, race=race))
bug("clear-keeps-merged-count", "C21", "clearing an automaton that has merged states and asking for its numbers",
    "a cleared automaton reports the merged states of its last build",
    [("dawg.go", "	dawg.numOfMergedTransitions = 0\n	dawg.numOfMergedStates = 0\n", "	dawg.numOfMergedTransitions = 0\n")], '''
func main() {
	a := automaton([]kv{{"aa", 1}, {"ba", 1}, {"ca", 1}})
	a.Clear()
	if a.NumOfMergedStates() != dawg.NewDawg().NumOfMergedStates() {
		fail("%d merged states", a.NumOfMergedStates())
	}
}
''')
bug("labels-compared-in-seven-bits", "C01", "two states whose transitions differ only in the top bit of a byte, in one slot of the table",
    "states with different labels are taken for the same, so that keys are replaced by others",
    [("dawg_builder.go", "			db.unitPool[i].label != db.labelPool[transitionIndex] {", "			(db.unitPool[i].label^db.labelPool[transitionIndex])&0x7f != 0 {")], '''
func main() {
	rng := rand.New(rand.NewSource(3))
	for round := 0; round < 300; round++ {
		m := map[string]int32{}
		for i := 0; i < 400; i++ {
			h := []byte{byte(1 + rng.Intn(255)), byte(1 + rng.Intn(255))}
			b := byte(1 + rng.Intn(127))
			m[string(append(h, b^byte(rng.Intn(2)<<7)))] = 7
		}
		es := sorted(m)
		b := dawg.NewDawgBuilderWithSize(8)
		for _, e := range es {
			b.InsertStringValue(e.k, e.v)
		}
		a := dawg.NewDawg()
		b.Finish(a)
		d := a.Build()
		for _, e := range es {
			if !d.ContainsString(e.k) {
				fail("%q is not found", e.k)
			}
		}
	}
}
''')
bug("wide-states-compared-in-part", "C02", "two states of more than 100 transitions that are equal in the first hundred and share a slot of the table",
    "the comparison stops after 100 transitions and takes the states for the same",
    [("dawg_builder.go", "	for i := unitIndex; i != 0; i = db.unitPool[i].sibling {\n		if db.unitPool[i].base()", "	for i, n := unitIndex, 0; i != 0; i, n = db.unitPool[i].sibling, n+1 {\n		if n > 100 {\n			return true\n		}\n		if db.unitPool[i].base()")], '''
func main() {
	m := map[string]int32{}
	for h := 1; h < 200; h++ {
		for b := 1; b < 256; b++ {
			if b > 20 || (h>>(b%8))&1 == 0 {
				m[string([]byte{byte(h), byte(b)})] = 1
			}
		}
	}
	b := dawg.NewDawgBuilderWithSize(1)
	for _, e := range sorted(m) {
		b.InsertStringValue(e.k, e.v)
	}
	a := dawg.NewDawg()
	b.Finish(a)
	d := a.Build()
	for h := 1; h < 200; h++ {
		for b := 1; b < 256; b++ {
			k := string([]byte{byte(h), byte(b)})
			_, want := m[k]
			ix := d.Root()
			if d.FollowString(k, &ix) != want {
				fail("%q: %v", k, !want)
			}
		}
	}
}
''')
bug("last-state-not-recorded-anew", "C05", "a table of states that grows, after which a state equal to the newest one comes",
    "the newest state is left out of the grown table, and an equal one is kept twice",
    [("dawg_builder.go", "	for i := 1; i < len(db.basePool); i += 1 {\n", "	for i := 1; i < len(db.basePool)-1; i += 1 {\n")], '''
func main() {
	rng := rand.New(rand.NewSource(5))
	for round := 0; round < 60; round++ {
		m := map[string]int32{}
		for len(m) < 600 {
			k := make([]byte, 2+rng.Intn(4))
			for j := range k {
				k[j] = byte('a' + rng.Intn(4))
			}
			m[string(k)] = int32(rng.Intn(2))
		}
		es := sorted(m)
		count := func(n int) int {
			b := dawg.NewDawgBuilderWithSize(n)
			for _, e := range es {
				b.InsertStringValue(e.k, e.v)
			}
			a := dawg.NewDawg()
			b.Finish(a)
			return a.NumOfStates()
		}
		if x, y := count(1<<16), count(1); x != y {
			fail("%d states and %d", x, y)
		}
	}
}
''')
bug("leaf-flag-lost-far-away", "C19", "a shared state that ends a key, linked across two million units by a link that happens to fit",
    "the key that ends at the far place is lost",
    [("dictionary_builder.go", "				if db.dawg.IsLeaf(dawgChildIndex) {\n					dictSetHasLeaf(&db.units[dictIndex])\n				}\n				dictSetOffset(&db.units[dictIndex], offset)\n", "				dictSetOffset(&db.units[dictIndex], offset)\n				if db.dawg.IsLeaf(dawgChildIndex) && offset < offsetMax {\n					dictSetHasLeaf(&db.units[dictIndex])\n				}\n")], '''
func main() {
	rng := rand.New(rand.NewSource(2))
	m := map[string]int32{}
	for i := 0; i < 6000; i++ {
		t := fmt.Sprintf("%d", i*7)
		for _, h := range []string{"\\x01\\x01" + fmt.Sprint(i), "\\xff\\xff" + fmt.Sprint(i)} {
			m[h+"x"] = 1
			m[h+"x"+t] = 2
		}
	}
	for i := 0; i < 460000; i++ {
		k := make([]byte, 6+rng.Intn(5))
		for j := range k {
			k[j] = byte(2 + rng.Intn(250))
		}
		m[string(k)] = int32(i)
	}
	es := sorted(m)
	d := automaton(es).Build()
	for _, e := range es {
		if d.FindString(e.k) != e.v {
			fail("%q: %d for %d", e.k, d.FindString(e.k), e.v)
		}
	}
}
''')
bug("guide-not-written-unnoticed", "C18", "a device that has room for the dictionary but not for the ranked guide",
    "the build ends well and leaves half a file",
    [("cmd/dawgtool/main.go", "		if !guide.Write(fileDictionary) {\n			log.Fatalf(\"error: failed to write RankedGuide\\n\")\n		}\n", "		guide.Write(fileDictionary)\n")], '''
func main() {
	dir := os.Args[1]
	os.WriteFile(dir+"/l", []byte("a\\nb\\nc\\n"), 0o644)
	if out, err := exec.Command(dir+"/dawgtool", "-b", "-r", dir+"/l", dir+"/d").CombinedOutput(); err != nil {
		fail("%v: %s", err, out)
	}
	fi, err := os.Stat(dir + "/d")
	if err != nil {
		fail("%v", err)
	}
	if exec.Command("prlimit", fmt.Sprintf("--fsize=%d", fi.Size()-10), dir+"/dawgtool", "-b", "-r", dir+"/l", dir+"/e").Run() == nil {
		fail("half a file, and no error")
	}
}
''')
