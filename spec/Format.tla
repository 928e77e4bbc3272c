------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The layout of saved files, as dawgdic has it, and what a reader that    *)
(* knows nothing else makes of them.                                       *)
(*                                                                         *)
(* A dictionary is a count and that many units of four bytes, the least    *)
(* significant first.  A unit is a leaf (highest bit) with a value, or a   *)
(* node with a label, a flag that a key ends here, and an offset (21 bits, *)
(* in units of 256 when the extension bit is set).  The unit reached from  *)
(* unit i by a byte is i XOR offset XOR byte; the leaf, for byte 0.        *)
(* A unit is written <<b0, b1, b2, b3>>; F is the sequence of units, the   *)
(* root first.                                                             *)
(***************************************************************************)
EXTENDS Lexicon, Bitwise

IsLeaf(u)   == u[4] >= 128
UnitLabel(u) == u[1]
EndsHere(u) == u[2] % 2 = 1
Extended(u) == (u[2] \div 2) % 2 = 1
Offset(u)   == LET o == (u[2] \div 4) + u[3] * 64 + u[4] * 16384
               IN IF Extended(u) THEN o * 256 ELSE o
LeafValue(u) == u[1] + u[2] * 256 + u[3] * 65536 + (u[4] % 128) * 16777216

Number(b) == b[1] + b[2] * 256 + b[3] * 65536 + b[4] * 16777216    \* of a count (below 2^31)

Target(i, u, b) == (i ^^ Offset(u)) ^^ b      \* units are numbered from 0
At(F, i) == F[i + 1]

\* A reader looks at the target of any byte without asking whether it is inside.
Inside(F, i) == \A b \in 0..255 : Target(i, At(F, i), b) < Len(F)
Follows(F, i, b) == LET t == At(F, Target(i, At(F, i), b)) IN ~IsLeaf(t) /\ UnitLabel(t) = b
Bytes(F, i) == {b \in 1..255 : Follows(F, i, b)}
ValueAt(F, i) == LET t == At(F, Target(i, At(F, i), 0)) IN IF IsLeaf(t) THEN LeafValue(t) ELSE -2

\* Everything below unit i: keys (in byte order) and values, and the units passed.
RECURSIVE Read(_, _, _)
Read(F, i, fuel) ==
  IF fuel = 0 \/ ~Inside(F, i) THEN <<[k |-> <<>>, v |-> -3]>>       \* no end, or outside
  ELSE LET own  == IF EndsHere(At(F, i)) THEN <<[k |-> <<>>, v |-> ValueAt(F, i)]>> ELSE <<>>
           bs   == SetToSortSeq(Bytes(F, i), <)
           sub(b) == LET r == Read(F, Target(i, At(F, i), b), fuel - 1)
                     IN [j \in 1..Len(r) |-> [k |-> <<b>> \o r[j].k, v |-> r[j].v]]
       IN own \o FlattenSeq([j \in 1..Len(bs) |-> sub(bs[j])])

RECURSIVE Passed(_, _, _)
Passed(F, seen, new) ==
  IF new = {} THEN seen
  ELSE LET s == seen \cup new
           next == UNION {{Target(i, At(F, i), b) : b \in Bytes(F, i)} : i \in new}
       IN Passed(F, s, next \ s)
Nodes(F) == Passed(F, {}, {0})
Leaves(F) == {Target(i, At(F, i), 0) : i \in {j \in Nodes(F) : EndsHere(At(F, j))}}

Depth(L) == IF L = <<>> THEN 1 ELSE Max({Len(L[i].k) : i \in 1..Len(L)}) + 2

DictionaryOK(F, L) == Len(F) > 0 /\ Read(F, 0, Depth(L)) = L
\* The root is always in use.
UnusedUnits(F) == Len(F) - Cardinality(Nodes(F) \cup Leaves(F))

(* -------------------------------- guides -------------------------------- *)
\* G[i] = <<first child, next sibling>>.

GuideNodeOK(bs, child, sibs) ==    \* labels in byte order, the pair's first, the children's second
  /\ child = IF bs = <<>> THEN 0 ELSE bs[1]
  /\ Len(sibs) = Len(bs)
  /\ \A j \in 1..Len(bs) : sibs[j] = IF j < Len(bs) THEN bs[j+1] ELSE 0

GuideOK(F, G) ==
  /\ Len(G) = Len(F)
  /\ G[1][2] = 0
  /\ \A i \in Nodes(F) :
       LET bs == SetToSortSeq(Bytes(F, i), <)
       IN GuideNodeOK(bs, G[i+1][1], [j \in 1..Len(bs) |-> G[Target(i, At(F, i), bs[j]) + 1][2]])

\* The chain of a ranked guide has the end of the key (label 0) in its place, too.
RankedNodeOK(labels, best, child, sib) ==
  \* labels: in byte order, 0 first if a key ends here; best: the highest value below each; sib: their siblings
  LET at(b) == CHOOSE j \in 1..Len(labels) : labels[j] = b
      known(b) == \E j \in 1..Len(labels) : labels[j] = b
      next[n \in 1..Len(labels)] ==      \* the n-th label of the chain
        IF n = 1 THEN child
        ELSE IF known(next[n-1]) THEN sib[at(next[n-1])] ELSE -1
  IN /\ labels # <<>>
     /\ \A n \in 1..Len(labels) : known(next[n])
     /\ {next[n] : n \in 1..Len(labels)} = {labels[j] : j \in 1..Len(labels)}
     /\ \A n \in 1..(Len(labels)-1) : best[at(next[n])] >= best[at(next[n+1])]
     /\ sib[at(next[Len(labels)])] = 0

HighestBelow(F, i, fuel) == LET r == Read(F, i, fuel) IN Max({r[j].v : j \in 1..Len(r)})
RankedOK(F, G, fuel) ==
  /\ Len(G) = Len(F)
  /\ G[1][2] = 0
  /\ \A i \in Nodes(F) :
       LET u == At(F, i)
           bs == (IF EndsHere(u) THEN <<0>> ELSE <<>>) \o SetToSortSeq(Bytes(F, i), <)
           best == [j \in 1..Len(bs) |-> IF bs[j] = 0 THEN ValueAt(F, i) ELSE HighestBelow(F, Target(i, u, bs[j]), fuel)]
       IN RankedNodeOK(bs, best, G[i+1][1], [j \in 1..Len(bs) |-> G[Target(i, u, bs[j]) + 1][2]])

(* -------------------------------- indices ------------------------------- *)
IndexOK(F, I, fuel) ==
  /\ Len(I) = Len(F)
  /\ \A i \in Nodes(F) : Number(I[i+1]) = Len(Read(F, i, fuel))
=============================================================================
