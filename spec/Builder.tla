------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The incremental construction of the minimal automaton, as the builder   *)
(* does it: units of the last key are kept apart (unfixed) and, as soon as *)
(* a greater key comes, are looked up in a hash table of states and either *)
(* merged into an equal state or appended to the pool of transitions.      *)
(*                                                                         *)
(* Indices are those of the code (0 is "none"), the hash table is open     *)
(* addressed and grows; the hash function is a parameter, the worst one    *)
(* (everything collides) included.                                         *)
(*                                                                         *)
(* Checked for every history of insertions over a small universe: what     *)
(* Finish gives at any moment is the minimal automaton of the listing that *)
(* DawgSystem says was accepted, and its counters are its true sizes.      *)
(***************************************************************************)
EXTENDS Lexicon

CONSTANTS Syms, MaxLen, \* keys tried, in any order: symbols 0..Syms (0: not storable)
          Vals,
          TableSize,   \* initial size of the hash table
          Collide,     \* all states hash alike
          Depth        \* insertions

Keys == UNION {[1..m -> 1..Syms] : m \in 0..MaxLen} \cup {<<0>>}

VARIABLES b, listing, n
bvars == <<b, listing, n>>

Put(f, i, x) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN x ELSE f[j]]
Last_(s) == s[Len(s)]

NoUnit == [child |-> 0, sibling |-> 0, label |-> 0, isState |-> FALSE, hasSibling |-> FALSE]
NoTrans == [child |-> 0, label |-> 0, isState |-> FALSE, hasSibling |-> FALSE]

Fresh == [units |-> (0 :> [NoUnit EXCEPT !.label = 255]), free |-> <<>>, unfixed |-> <<0>>,
          trans |-> (0 :> NoTrans), merging |-> {},
          table |-> [h \in 0..(TableSize-1) |-> 0],
          states |-> 1, mergedTransitions |-> 0]

(* ----------------------------- the table -------------------------------- *)

\* A unit as a transition (the end of a key is no state of its own).
AsTrans(u) == [child |-> u.child, label |-> u.label,
               isState |-> (u.label # 0 /\ u.isState), hasSibling |-> u.hasSibling]

HashOf(ts) == IF Collide THEN 0 ELSE FoldSet(LAMBDA t, acc : acc + 7 * t.label + 3 * t.child + 1, 0, ts)

RECURSIVE Siblings(_, _)      \* indices of the units of a group, the youngest first
Siblings(B, i) == IF i = 0 THEN <<>> ELSE <<i>> \o Siblings(B, B.units[i].sibling)
GroupOfUnits(B, i) == LET s == Siblings(B, i) IN [j \in 1..Len(s) |-> AsTrans(B.units[s[Len(s)+1-j]])]

RECURSIVE GroupOfTrans(_, _)  \* the transitions of a state, in order
GroupOfTrans(B, t) == <<B.trans[t]>> \o (IF B.trans[t].hasSibling THEN GroupOfTrans(B, t + 1) ELSE <<>>)

Slots(B) == Cardinality(DOMAIN B.table)

\* Open addressing: from slot h on, the first that is empty or holds an equal state.
RECURSIVE Probe(_, _, _, _)
Probe(B, g, h, fuel) ==
  IF fuel = 0 THEN [found |-> 0, slot |-> -1]      \* would go on forever
  ELSE IF B.table[h] = 0 THEN [found |-> 0, slot |-> h]
  ELSE IF GroupOfTrans(B, B.table[h]) = g THEN [found |-> B.table[h], slot |-> h]
  ELSE Probe(B, g, (h + 1) % Slots(B), fuel - 1)
Find_(B, g) == Probe(B, g, HashOf(Range(g)) % Slots(B), Slots(B))

\* Growing: the first transition of every state is put into a table of twice the size.
RECURSIVE Rehash(_, _)
Rehash(B, i) ==
  IF i \notin DOMAIN B.trans THEN B
  ELSE IF B.trans[i].label = 0 \/ B.trans[i].isState
       THEN LET p == Find_(B, GroupOfTrans(B, i)) IN Rehash([B EXCEPT !.table[p.slot] = i], i + 1)
       ELSE Rehash(B, i + 1)
Grown(B) == IF B.states >= Slots(B) - (Slots(B) \div 4)
            THEN Rehash([B EXCEPT !.table = [h \in 0..(2 * Slots(B) - 1) |-> 0]], 1)
            ELSE B

(* -------------------------- fixing and merging -------------------------- *)

RECURSIVE Appended(_, _)
Appended(ts, g) == IF g = <<>> THEN ts ELSE Appended(Put(ts, Cardinality(DOMAIN ts), g[1]), Tail(g))

FixOne(B0) ==
  LET top == Last_(B0.unfixed)
      B == Grown([B0 EXCEPT !.unfixed = Front(@)])
      g == GroupOfUnits(B, top)
      p == Find_(B, g)
      first == Cardinality(DOMAIN B.trans)
      B1 == IF p.found # 0
            THEN [B EXCEPT !.mergedTransitions = @ + Len(g), !.merging = @ \cup {p.found}]
            ELSE [B EXCEPT !.trans = Appended(@, g), !.table[p.slot] = first, !.states = @ + 1]
      at == IF p.found # 0 THEN p.found ELSE first
  IN [B1 EXCEPT !.free = @ \o Siblings(B, top),
                !.units[Last_(B.unfixed)].child = at]

RECURSIVE FixUntil(_, _)
FixUntil(B, i) == IF Last_(B.unfixed) = i THEN [B EXCEPT !.unfixed = Front(@)] ELSE FixUntil(FixOne(B), i)

(* ------------------------------ insertion ------------------------------- *)

LabelAt(k, pos) == IF pos < Len(k) THEN k[pos + 1] ELSE 0

\* Follows the units of the last key as long as the new one agrees with it.
RECURSIVE Separate(_, _, _, _)
Separate(B, k, i, pos) ==
  LET c == B.units[i].child IN
  IF pos > Len(k) \/ c = 0 THEN [ok |-> TRUE, B |-> B, i |-> i, pos |-> pos]
  ELSE IF LabelAt(k, pos) < B.units[c].label THEN [ok |-> FALSE, B |-> B, i |-> i, pos |-> pos]
  ELSE IF LabelAt(k, pos) > B.units[c].label
       THEN [ok |-> TRUE, B |-> FixUntil([B EXCEPT !.units[c].hasSibling = TRUE], c), i |-> i, pos |-> pos]
  ELSE Separate(B, k, c, pos + 1)

RECURSIVE Extended(_, _, _, _)
Extended(B, k, i, pos) ==
  IF pos > Len(k) THEN [B |-> B, i |-> i]
  ELSE LET new == IF B.free = <<>> THEN Cardinality(DOMAIN B.units) ELSE Last_(B.free)
           u == [child |-> 0, sibling |-> B.units[i].child, label |-> LabelAt(k, pos),
                 isState |-> B.units[i].child = 0, hasSibling |-> FALSE]
           B1 == [B EXCEPT !.units = Put([@ EXCEPT ![i].child = new], new, u),
                           !.free = IF @ = <<>> THEN @ ELSE Front(@),
                           !.unfixed = Append(@, new)]
       IN Extended(B1, k, new, pos + 1)

InsertInto(B, k, v) ==
  IF ~Storable(k, v) THEN [r |-> FALSE, B |-> B]
  ELSE LET s == Separate(B, k, 0, 0) IN
       IF ~s.ok THEN [r |-> FALSE, B |-> B]
       ELSE LET e == Extended(s.B, k, s.i, s.pos)
            IN [r |-> TRUE, B |-> [e.B EXCEPT !.units[e.i].child = v]]

(* ------------------------------ finishing ------------------------------- *)
Finished(B) ==
  LET F == FixUntil(B, 0)
  IN [trans |-> F.trans, root |-> F.units[0].child, merging |-> F.merging, states |-> F.states,
      mergedTransitions |-> F.mergedTransitions]

RECURSIVE Spelled(_, _)       \* the listing of a state
Spelled(A, t) ==
  LET g == GroupOfTrans(A, t)
      part(x) == IF x.label = 0 THEN <<[k |-> <<>>, v |-> x.child]>>
                 ELSE LET s == Spelled(A, x.child) IN [i \in 1..Len(s) |-> [k |-> <<x.label>> \o s[i].k, v |-> s[i].v]]
  IN FlattenSeq([i \in 1..Len(g) |-> part(g[i])])

\* First transitions of the states.
StatesOf(A) == {i \in DOMAIN A.trans \ {0} : A.trans[i].label = 0 \/ A.trans[i].isState}

(* ------------------------------ behaviours ------------------------------ *)
Init == b = Fresh /\ listing = <<>> /\ n = 0
Insert(k, v) ==
  LET r == InsertInto(b, k, v)
  IN /\ n < Depth /\ n' = n + 1
     /\ r.r = Accepts(listing, k, v)          \* as DawgSystem!Insert has it
     /\ b' = r.B
     /\ listing' = IF r.r THEN Inserted(listing, k, v) ELSE listing
Next == \E k \in Keys, v \in Vals : Insert(k, v)
Spec == Init /\ [][Next]_bvars

\* Insert is never stuck on a disagreement about acceptance.
AlwaysDecided == \A k \in Keys, v \in Vals : InsertInto(b, k, v).r = Accepts(listing, k, v)

\* At any moment, what could be finished is the minimal automaton of the listing.
Faithful ==
  LET A == Finished(b)
      S == Sizes(listing)
  IN /\ IF listing = <<>> THEN A.root = 0 ELSE Spelled(A, A.root) = listing
     /\ A.states = S.states
     /\ Cardinality(DOMAIN A.trans) - 1 = S.transitions
     /\ A.mergedTransitions = S.mergedTransitions
     /\ Cardinality(DOMAIN A.trans) - 1 + A.mergedTransitions + 1 - A.states = S.mergedStates
     /\ Cardinality(A.merging) = S.mergingStates
     /\ Cardinality(StatesOf(A)) = A.states - 1
     /\ \A x, y \in StatesOf(A) : x # y => GroupOfTrans(A, x) # GroupOfTrans(A, y)

\* The table always has room, so that looking something up ends.
Roomy == Cardinality({h \in DOMAIN b.table : b.table[h] = 0}) > 0

\* A refusal leaves no trace.
RefusalsSilent == [][listing' = listing /\ n' > n /\ ~(\E k \in Keys, v \in Vals : Accepts(listing, k, v) /\ Inserted(listing, k, v) = listing) => b' = b]_bvars
=============================================================================
