package main

// Sizes of the minimal automaton of a lexicon (spec/Lexicon.tla, Sizes).

import "strconv"

type trieNode struct {
	labels []byte
	kids   []*trieNode
	val    int32
	id     int
}

func trieOf(L Lex) *trieNode {
	root := &trieNode{val: -1}
	for _, e := range L {
		n := root
		for _, b := range e.K {
			k := len(n.labels)
			if k > 0 && n.labels[k-1] == b {
				n = n.kids[k-1]
				continue
			}
			m := &trieNode{val: -1}
			n.labels = append(n.labels, b)
			n.kids = append(n.kids, m)
			n = m
		}
		n.val = e.V
	}
	return root
}

func sizesOf(L Lex) Sizes {
	if len(L) == 0 {
		return Sizes{States: 1}
	}
	classes := map[string]int{}
	deg := []int{}
	uses := []int{}
	nodes := 0
	var rec func(n *trieNode) int
	rec = func(n *trieNode) int {
		nodes++
		var sig []byte
		if n.val >= 0 {
			sig = append(sig, 'v')
			sig = strconv.AppendInt(sig, int64(n.val), 10)
		}
		for i, b := range n.labels {
			id := rec(n.kids[i])
			sig = append(sig, ' ')
			sig = strconv.AppendInt(sig, int64(b), 10)
			sig = append(sig, ':')
			sig = strconv.AppendInt(sig, int64(id), 10)
		}
		id, ok := classes[string(sig)]
		if !ok {
			id = len(classes)
			classes[string(sig)] = id
			d := len(n.labels)
			if n.val >= 0 {
				d++
			}
			deg = append(deg, d)
			uses = append(uses, 0)
		}
		uses[id]++
		return id
	}
	rec(trieOf(L))
	trie := nodes - 1 + len(L)
	s := Sizes{States: 1 + len(classes)}
	for i := range deg {
		s.Transitions += deg[i]
		if uses[i] > 1 {
			s.MergingStates++
		}
	}
	s.MergedTransitions = trie - s.Transitions
	s.MergedStates = trie + 1 - s.States
	return s
}
