----------------------------- MODULE Numbering -----------------------------
(***************************************************************************)
(* How keys are numbered: a count per unit, filled in by one walk that     *)
(* enters shared units once, and the two loops that add counts up on the   *)
(* way to a key and subtract them on the way to a number.  Children are    *)
(* met in the order of the guide; a ranked guide also lists the leaf (the  *)
(* end of a key) among them, before, between or after the labels, and the  *)
(* loops must pass over it.  One step of the machine enters one unit, or   *)
(* answers one call.                                                       *)
(*                                                                         *)
(* A unit is [up, l, s] as in Cursors.                                     *)
(***************************************************************************)
EXTENDS Lexicon

CONSTANTS Syms, MaxLen, MaxKeys, Vals

VARIABLES lex, ranked,
          counts,   \* unit -> number of keys
          todo,     \* stack of [u |-> unit, rest |-> labels still to be visited]
          phase     \* "choose", "count", "ready"
nvars == <<lex, ranked, counts, todo, phase>>

Universe == UNION {[1..n -> 1..Syms] : n \in 0..MaxLen}
Asked == UNION {[1..n -> 0..Syms] : n \in 0..(MaxLen+1)}     \* with null bytes and longer ones

RootOf(L) == [up |-> <<>>, l |-> 0, s |-> L]
Ends(u) == Has(u.s, <<>>)
Child(u, b) == [up |-> u.s, l |-> b, s |-> IF b = 0 THEN <<>> ELSE Below(u.s, <<b>>)]

Best(S, b) == IF b = 0 THEN Find(S, <<>>) ELSE BestUnder(S, <<b>>)
Chain(S) ==
  LET real == Labels(S, <<>>)
      all == real \cup (IF Has(S, <<>>) THEN {0} ELSE {})
  IN IF ranked THEN SetToSortSeq(all, LAMBDA a, b : Best(S, a) > Best(S, b) \/ (Best(S, a) = Best(S, b) /\ a < b))
     ELSE SetToSortSeq(real, <)
GChild(u) == LET c == Chain(u.s) IN IF c = <<>> THEN 0 ELSE c[1]
GSibling(u) ==
  LET c == Chain(u.up)
  IN IF \E j \in 1..Len(c) : c[j] = u.l
     THEN LET i == CHOOSE i \in 1..Len(c) : c[i] = u.l IN IF i < Len(c) THEN c[i+1] ELSE 0
     ELSE 0

\* The labels of a unit's children as the loops meet them: a 0 is the leaf, the first time, if there is
\* one; then the leaf's sibling comes next.  [b, passed]
SkipLeaf(u, b, passed) ==
  IF b # 0 \/ passed \/ ~Ends(u) THEN [b |-> b, passed |-> passed]
  ELSE [b |-> GSibling(Child(u, 0)), passed |-> TRUE]
First(u) == SkipLeaf(u, GChild(u), FALSE)
Then(u, x) == SkipLeaf(u, GSibling(Child(u, x.b)), x.passed)
RECURSIVE Met(_, _)
Met(u, x) == IF x.b = 0 THEN <<>> ELSE <<x.b>> \o Met(u, Then(u, x))
Kids(u) == Met(u, First(u))

CountOf(u) == IF u \in DOMAIN counts THEN counts[u] ELSE 0

(* ------------------------------- behaviours ----------------------------- *)
Init == lex = <<>> /\ ranked \in BOOLEAN /\ counts = <<>> /\ todo = <<>> /\ phase = "choose"
Choose == /\ phase = "choose" /\ Len(lex) < MaxKeys
          /\ \E k \in Universe, v \in Vals :
               /\ (IF lex = <<>> THEN TRUE ELSE LexLt(lex[Len(lex)].k, k))
               /\ lex' = Append(lex, [k |-> k, v |-> v])
          /\ UNCHANGED <<ranked, counts, todo, phase>>
Enter(u) == [u |-> u, rest |-> Kids(u)]
Own(u) == IF Ends(u) THEN 1 ELSE 0
Begin == /\ phase = "choose"
         /\ LET r == RootOf(lex)
            IN IF lex = <<>> THEN phase' = "ready" /\ UNCHANGED <<counts, todo>>
               ELSE /\ phase' = "count" /\ todo' = <<Enter(r)>> /\ counts' = (r :> Own(r))
         /\ UNCHANGED <<lex, ranked>>
Step ==   \* the unit on top: its next child, entered if that has not been done, or added
  /\ phase = "count"
  /\ LET t == todo[1]
     IN IF t.rest = <<>>
        THEN /\ todo' = Tail(todo)
             /\ phase' = IF todo' = <<>> THEN "ready" ELSE "count"
             /\ UNCHANGED counts
        ELSE LET c == Child(t.u, t.rest[1])
             IN IF CountOf(c) = 0
                THEN /\ counts' = (c :> Own(c)) @@ counts /\ todo' = <<Enter(c)>> \o todo /\ UNCHANGED phase
                ELSE /\ counts' = [counts EXCEPT ![t.u] = @ + CountOf(c)]
                     /\ todo' = <<[t EXCEPT !.rest = Tail(@)]>> \o Tail(todo) /\ UNCHANGED phase
  /\ UNCHANGED <<lex, ranked>>
Next == Choose \/ Begin \/ Step
Spec == Init /\ [][Next]_nvars /\ WF_nvars(Begin \/ Step)

(* --------------------------------- calls -------------------------------- *)
None == -1
RECURSIVE Sum(_, _, _)
Sum(u, x, b) ==    \* over the children met before b: [n, found]
  IF x.b = b /\ b # 0 THEN [n |-> 0, found |-> TRUE]
  ELSE IF x.b = 0 THEN [n |-> 0, found |-> FALSE]
  ELSE LET r == Sum(u, Then(u, x), b) IN [r EXCEPT !.n = @ + CountOf(Child(u, x.b))]
RECURSIVE Number(_, _, _)
Number(u, s, n) ==
  IF s = <<>> THEN (IF Ends(u) THEN n ELSE None)
  ELSE LET r == Sum(u, First(u), s[1])
       IN IF r.found THEN Number(Child(u, s[1]), Tail(s), n + Own(u) + r.n) ELSE None
NumberOfKey(s) == IF lex = <<>> THEN None ELSE Number(RootOf(lex), s, 0)

NoKey == <<-1>>
RECURSIVE Key(_, _, _, _)
Key(u, cur, i, buf) ==
  IF Ends(u) /\ cur = i THEN buf
  ELSE LET c0 == cur + Own(u)
           walk[j \in 0..Len(Kids(u))] ==    \* keys before the j-th child's
             IF j = 0 THEN c0 ELSE walk[j-1] + CountOf(Child(u, Kids(u)[j]))
           ok == {j \in 1..Len(Kids(u)) : i < walk[j]}
       IN IF ok = {} THEN NoKey
          ELSE LET j == Min(ok) IN Key(Child(u, Kids(u)[j]), walk[j-1], i, Append(buf, Kids(u)[j]))
KeyOfNumber(i) == IF lex = <<>> THEN NoKey ELSE Key(RootOf(lex), 0, i, <<>>)

(* ------------------------------ properties ------------------------------ *)
Done == phase = "ready"
\* The children are met once each, in whatever order, the leaf left out.
MeetsAll == Done => \A p \in PrefixesOf(lex) :
  LET u == IF p = <<>> THEN RootOf(lex) ELSE Child([RootOf(lex) EXCEPT !.s = Below(lex, SubSeq(p, 1, Len(p)-1))], p[Len(p)])
  IN /\ Range(Kids(u)) = Labels(lex, p)
     /\ Len(Kids(u)) = Cardinality(Labels(lex, p))
     /\ (~ranked => Kids(u) = SetToSortSeq(Labels(lex, p), <))
\* A unit's count is the number of keys at or below every position it stands for.
Counted == Done => \A p \in PrefixesOf(lex) :
  LET u == IF p = <<>> THEN RootOf(lex) ELSE [up |-> Below(lex, SubSeq(p, 1, Len(p)-1)), l |-> p[Len(p)], s |-> Below(lex, p)]
  IN CountOf(u) = CountUnder(lex, p)
\* Numbers are ranks with an ordinary guide; with any guide they are a numbering.
Ranks == (Done /\ ~ranked) => /\ \A s \in Asked : NumberOfKey(s) = NumberOf(Whole(lex), s)
                              /\ \A i \in 0..(Len(lex)-1) : KeyOfNumber(i) = lex[i+1].k
Numbered == Done => /\ \A s \in Asked : (NumberOfKey(s) # None) = Has(lex, s)
                    /\ \A j \in 1..Len(lex) : NumberOfKey(lex[j].k) \in 0..(Len(lex)-1) /\ KeyOfNumber(NumberOfKey(lex[j].k)) = lex[j].k
                    /\ \A i \in 0..(Len(lex)-1) : Has(lex, KeyOfNumber(i)) /\ NumberOfKey(KeyOfNumber(i)) = i
                    /\ \A i \in Len(lex)..(Len(lex)+2) : KeyOfNumber(i) = NoKey
Finishes == (phase = "count") ~> Done
=============================================================================
