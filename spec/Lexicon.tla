------------------------------ MODULE Lexicon ------------------------------
(***************************************************************************)
(* What a dictionary IS, for everyone outside the library: a finite map    *)
(* from byte strings to values, listed in ascending byte order.  All other *)
(* modules are about ways to build, store, walk and number such a map;     *)
(* every answer of the implementation is judged by the operators below.    *)
(*                                                                         *)
(* A byte string is a sequence of 0..255.  A listing is a sequence of      *)
(* entries [k |-> byte string, v |-> value], strictly ascending in k.      *)
(*                                                                         *)
(* A lexicon is a listing seen through a window,                           *)
(*     [below |-> n, win |-> listing, total |-> m],                        *)
(* which stands for m entries of which the first n come before the window. *)
(* Small lexicons are seen whole (below = 0, total = Len(win)); for        *)
(* dictionaries of millions of keys only the neighbourhood of what was     *)
(* asked for is put into a trace.  A query may only be judged through a    *)
(* window that holds the neighbourhood it depends on: see Decides below.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

(* ------------------------- byte strings ------------------------------- *)

\* IsPrefix is from SequencesExt.

LexLt(a, b) ==
  IF IsPrefix(a, b) THEN Len(a) < Len(b)
  ELSE IF IsPrefix(b, a) THEN FALSE
  ELSE LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
           i == CHOOSE i \in 1..n : /\ a[i] # b[i]
                                    /\ SubSeq(a, 1, i-1) = SubSeq(b, 1, i-1)
       IN a[i] < b[i]

LexLeq(a, b) == a = b \/ LexLt(a, b)

\* Length of the longest common prefix.
Common(a, b) ==
  IF IsPrefix(a, b) THEN Len(a) ELSE IF IsPrefix(b, a) THEN Len(b)
  ELSE (CHOOSE i \in 1..Len(a) : /\ a[i] # b[i]
                                 /\ SubSeq(a, 1, i-1) = SubSeq(b, 1, i-1)) - 1

Drop(s, n) == SubSeq(s, n+1, Len(s))

HasNull(k) == \E i \in DOMAIN k : k[i] = 0

(* --------------------------- listings --------------------------------- *)

Ascending(L) == \A i \in 1..(Len(L)-1) : LexLt(L[i].k, L[i+1].k)

\* What an insertion does to the listing accepted so far.
Storable(k, v)   == v >= 0 /\ ~HasNull(k)
Accepts(L, k, v) == Storable(k, v) /\ (IF L = <<>> THEN TRUE ELSE LexLeq(L[Len(L)].k, k))
Inserted(L, k, v) ==
  IF L # <<>> /\ L[Len(L)].k = k
  THEN [L EXCEPT ![Len(L)].v = v]
  ELSE Append(L, [k |-> k, v |-> v])

\* Exact match.  NotFound is what the value-returning calls give.
NotFound == -1
Positions(L, k) == {i \in 1..Len(L) : L[i].k = k}
Has(L, k)  == Positions(L, k) # {}
Find(L, k) == IF Has(L, k) THEN L[CHOOSE i \in Positions(L, k) : TRUE].v ELSE NotFound

\* Prefix navigation: the positions of a dictionary are the prefixes of its keys
\* (and the root, also when there are no keys).
HasPrefix(L, p)  == \E i \in 1..Len(L) : IsPrefix(p, L[i].k)
IsPosition(L, p) == p = <<>> \/ HasPrefix(L, p)
MatchedDef(L, s) ==   \* length of the longest prefix of s that is a position
  CHOOSE n \in 0..Len(s) :
    /\ IsPosition(L, SubSeq(s, 1, n))
    /\ n < Len(s) => ~IsPosition(L, SubSeq(s, 1, n+1))
\* The same (checked in GenLexicons), fit for very long strings.
Matched(L, s) == Max({0} \cup {Common(s, L[i].k) : i \in 1..Len(L)})
Labels(L, p) ==    \* the bytes that can be followed from position p
  {L[i].k[Len(p)+1] : i \in {j \in 1..Len(L) : IsPrefix(p, L[j].k) /\ Len(L[j].k) > Len(p)}}

\* Everything below a position, in ascending order, still with full keys.
Under(L, p) == SelectSeq(L, LAMBDA e : IsPrefix(p, e.k))
\* How many keys there are at a position and below it.
CountUnder(L, p) == Cardinality({i \in 1..Len(L) : IsPrefix(p, L[i].k)})
\* The first label that can be followed at a position, and the next one after it (0: none).
FirstLabel(L, p) == LET S == Labels(L, p) IN IF S = {} THEN 0 ELSE Min(S)
NextLabel(L, p, l) == LET S == {x \in Labels(L, p) : x > l} IN IF S = {} THEN 0 ELSE Min(S)
\* The highest value at a position and below it.
BestUnder(L, p) == Max({L[i].v : i \in {j \in 1..Len(L) : IsPrefix(p, L[j].k)}})

Below(L, p) ==
  LET u == Under(L, p) IN [i \in 1..Len(u) |-> [k |-> Drop(u[i].k, Len(p)), v |-> u[i].v]]

(* ---------------------- the minimal automaton -------------------------- *)

PrefixesOf(L) == UNION {{SubSeq(L[i].k, 1, n) : n \in 0..Len(L[i].k)} : i \in 1..Len(L)}

\* A state of the minimal automaton is the list of what can follow it.
\* The end of a key is a transition of its own (it carries the value).
OutDegree(S) == Cardinality({IF S[i].k = <<>> THEN -1 ELSE S[i].k[1] : i \in 1..Len(S)})

Sizes(L) ==
  IF L = <<>>
  THEN [states |-> 1, transitions |-> 0, mergedTransitions |-> 0, mergedStates |-> 0, mergingStates |-> 0]
  ELSE
    LET P    == PrefixesOf(L)
        res  == [p \in P |-> Below(L, p)]      \* state reached by each prefix
        R    == {res[p] : p \in P}
        deg  == [r \in R |-> OutDegree(r)]
        trie == Cardinality(P) - 1 + Len(L)        \* transitions of the plain tree
        tr   == FoldSet(LAMBDA r, acc : deg[r] + acc, 0, R)
        st   == 1 + Cardinality(R)                 \* and the common end state
    IN [states            |-> st,
        transitions       |-> tr,
        mergedTransitions |-> trie - tr,
        mergedStates      |-> trie + 1 - st,
        mergingStates     |-> Cardinality({r \in R : Cardinality({p \in P : res[p] = r}) > 1})]

(* ------------------------ lexicons (windows) ---------------------------- *)

Whole(L) == [below |-> 0, win |-> L, total |-> Len(L)]
IsWhole(W) == W.below = 0 /\ W.total = Len(W.win)

AtStart(W) == W.below = 0                            \* nothing before the window
AtEnd(W)   == W.below + Len(W.win) = W.total         \* nothing after it

\* The window holds every entry that is <= s, = s or has prefix s, up to the first beyond.
DecidesBefore(W, s) == AtStart(W) \/ (W.win # <<>> /\ LexLt(W.win[1].k, s))
DecidesAfter(W, s)  == AtEnd(W) \/ (W.win # <<>> /\ LexLt(s, W.win[Len(W.win)].k))
Decides(W, s) == DecidesBefore(W, s) /\ DecidesAfter(W, s)

Rank(W, k) ==   \* number of entries below k
  W.below + Cardinality({i \in 1..Len(W.win) : LexLt(W.win[i].k, k)})
NumberOf(W, k) == IF Has(W.win, k) THEN Rank(W, k) ELSE NotFound

LexiconOK(W) == /\ W.below >= 0
                /\ W.below + Len(W.win) <= W.total
                /\ Ascending(W.win)
                /\ \A i \in 1..Len(W.win) : Storable(W.win[i].k, W.win[i].v)
=============================================================================
