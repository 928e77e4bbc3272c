---------------------------- MODULE DoubleArray ----------------------------
(***************************************************************************)
(* How the dictionary builder lays an automaton out in a double array,     *)
(* with the geometry as parameters: 2^LabelBits units to a block, Open     *)
(* blocks kept open for later use (16), offsets of OffsetBits bits (21),   *)
(* or of OffsetBits + LabelBits bits when their low bits are zero.         *)
(* In a small geometry all the limits are met by lexicons of a few keys.   *)
(*                                                                         *)
(* A state of the automaton is named by its residual listing (Below), as   *)
(* in Lexicon.  One step of the machine places the children of one state   *)
(* (or links to where they already are), depth first, then the remaining   *)
(* blocks are closed.  Checked, for every lexicon: the bookkeeping of free *)
(* units, that no two states share an offset, and that what a reader finds *)
(* in the finished array is the lexicon and nothing else.                  *)
(***************************************************************************)
EXTENDS Lexicon, Bitwise

CONSTANTS Syms, MaxLen, MaxKeys, Vals,      \* lexicons
          LabelBits, Open, OffsetBits       \* geometry

Block == 2 ^ LabelBits
OffsetMax == 2 ^ OffsetBits
ASSUME Syms < Block

Universe == UNION {[1..m -> 1..Syms] : m \in 0..MaxLen}

VARIABLES lex,      \* what is to be built
          units,    \* index -> [leaf, label, ends, off, val]
          extra,    \* index -> [fixed, used, next, prev]
          free,     \* where the circle of free units starts (the number of units: nowhere)
          links,    \* state -> offset of its children, of shared states
          todo,     \* stack of [s |-> state, i |-> its unit]
          unused,   \* units closed without use
          phase     \* "choose", "place", "close", "done", "failed"
dvars == <<lex, units, extra, free, links, todo, unused, phase>>

N == Cardinality(DOMAIN units)
NoUnit == [leaf |-> FALSE, label |-> 0, ends |-> FALSE, off |-> 0, val |-> 0]

(* ---------------------------- the automaton ----------------------------- *)
StatesOf(L) == {Below(L, p) : p \in PrefixesOf(L)}
IsShared(L, S) == Cardinality({p \in PrefixesOf(L) : Below(L, p) = S}) > 1
LabelsOf(S) == (IF Has(S, <<>>) THEN <<0>> ELSE <<>>) \o SetToSortSeq(Labels(S, <<>>), <)

(* ------------------------------ free units ------------------------------ *)
\* A: [units, extra, free, unused], the array while a step works on it.
Count(A) == Cardinality(DOMAIN A.units)

TakeOut(A, i) ==    \* out of the circle
  LET f == IF i # A.free THEN A.free
           ELSE IF A.extra[i].next = i THEN Count(A) ELSE A.extra[i].next
      nx == A.extra[i].next
      pv == A.extra[i].prev
      e1 == [A.extra EXCEPT ![pv].next = nx]
      e2 == [e1 EXCEPT ![nx].prev = pv]
  IN [A EXCEPT !.free = f, !.extra = [e2 EXCEPT ![i].fixed = TRUE]]

\* Closes a block: free units get a label that no state looking into the block asks for.
RECURSIVE CloseUnits(_, _, _, _)
CloseUnits(A, i, end, o) ==
  IF i = end THEN A
  ELSE IF A.extra[i].fixed THEN CloseUnits(A, i + 1, end, o)
  ELSE LET B == TakeOut(A, i)
       IN CloseUnits([B EXCEPT !.units[i].label = (i ^^ o) % Block, !.unused = @ + 1], i + 1, end, o)
CloseBlock(A, q) ==
  LET lo == q * Block
      os == {o \in lo..(lo + Block - 1) : ~A.extra[o].used}
  IN CloseUnits(A, lo, lo + Block, IF os = {} THEN 0 ELSE Min(os))

\* One block more; the oldest open one is closed for it, its records used for the new one.
Expand(A) ==
  LET n == Count(A)
      A1 == IF n \div Block + 1 > Open THEN CloseBlock(A, n \div Block - Open) ELSE A
      f == A1.free
      new == [i \in n..(n + Block - 1) |->
                [fixed |-> FALSE, used |-> FALSE,
                 next |-> IF i = n + Block - 1 THEN n ELSE i + 1,
                 prev |-> IF i = n THEN n + Block - 1 ELSE i - 1]]
      all == new @@ A1.extra
      \* (the circle is empty when free is n, a unit that is new itself)
      fp == all[f].prev
      e1 == [all EXCEPT ![n].prev = fp]
      e2 == [e1 EXCEPT ![n + Block - 1].next = f]
      e3 == [e2 EXCEPT ![e2[f].prev].next = n]
      e4 == [e3 EXCEPT ![f].prev = n + Block - 1]
  IN [A1 EXCEPT !.units = [i \in n..(n + Block - 1) |-> NoUnit] @@ @,
                !.extra = e4]

Reserve(A, i) == TakeOut(IF i >= Count(A) THEN Expand(A) ELSE A, i)

(* ------------------------------- offsets -------------------------------- *)
Reachable(rel) == rel % Block = 0 \/ rel < OffsetMax       \* short, or with low bits zero
Storable_(rel) == rel < OffsetMax * Block

GoodOffset(A, i, o, ls) ==
  /\ ~A.extra[o].used
  /\ Reachable(i ^^ o)
  /\ \A j \in 2..Len(ls) : ~A.extra[o ^^ ls[j]].fixed

RECURSIVE Scan(_, _, _, _)
Scan(A, i, ls, u) ==
  IF GoodOffset(A, i, u ^^ ls[1], ls) THEN u ^^ ls[1]
  ELSE IF A.extra[u].next = A.free THEN Count(A) + (i % Block)       \* a new block
  ELSE Scan(A, i, ls, A.extra[u].next)
FindOffset(A, i, ls) == IF A.free >= Count(A) THEN Count(A) + (i % Block) ELSE Scan(A, i, ls, A.free)

(* -------------------------------- placing ------------------------------- *)
RECURSIVE PutChildren(_, _, _, _, _)
PutChildren(A, S, i, o, ls) ==
  IF ls = <<>> THEN [A EXCEPT !.extra[o].used = TRUE]
  ELSE LET c == o ^^ ls[1]
           B == Reserve(A, c)
           C == IF ls[1] = 0
                THEN [B EXCEPT !.units[c] = [NoUnit EXCEPT !.leaf = TRUE, !.val = Find(S, <<>>)],
                               !.units[i].ends = TRUE]
                ELSE [B EXCEPT !.units[c].label = ls[1]]
       IN PutChildren(C, S, i, o, Tail(ls))

Array == [units |-> units, extra |-> extra, free |-> free, unused |-> unused]
Becomes(A) == units' = A.units /\ extra' = A.extra /\ free' = A.free /\ unused' = A.unused

(* ------------------------------ behaviours ------------------------------ *)
Init == /\ lex = <<>> /\ units = <<>> /\ extra = <<>> /\ free = 0 /\ links = <<>>
        /\ todo = <<>> /\ unused = 0 /\ phase = "choose"

Choose == /\ phase = "choose" /\ Len(lex) < MaxKeys
          /\ \E k \in Universe, v \in Vals :
               /\ (IF lex = <<>> THEN TRUE ELSE LexLt(lex[Len(lex)].k, k))
               /\ lex' = Append(lex, [k |-> k, v |-> v])
          /\ UNCHANGED <<units, extra, free, links, todo, unused, phase>>

Root ==   \* the first block, its first unit taken
  LET none == [units |-> <<>>, extra |-> <<>>, free |-> 0, unused |-> 0]
      A == Reserve(none, 0)
  IN [A EXCEPT !.extra[0].used = TRUE, !.units[0].off = 1,
               !.extra[1].used = (lex = <<>>)]

Begin == /\ phase = "choose"
         /\ Becomes(Root)
         /\ todo' = IF lex = <<>> THEN <<>> ELSE <<[s |-> lex, i |-> 0]>>
         /\ phase' = IF lex = <<>> THEN "close" ELSE "place"
         /\ UNCHANGED <<lex, links>>

Place ==
  /\ phase = "place" /\ todo # <<>>
  /\ LET t == todo[1]
         ls == LabelsOf(t.s)
         linked == t.s \in DOMAIN links /\ Reachable(links[t.s] ^^ t.i)
     IN IF linked
        THEN /\ units' = [units EXCEPT ![t.i].off = links[t.s] ^^ t.i, ![t.i].ends = @ \/ Has(t.s, <<>>)]
             /\ todo' = Tail(todo) /\ phase' = IF todo' = <<>> THEN "close" ELSE "place"
             /\ UNCHANGED <<extra, free, unused, links>>
        ELSE LET o == FindOffset(Array, t.i, ls)
             IN IF ~Storable_(o ^^ t.i)
                THEN phase' = "failed" /\ UNCHANGED <<units, extra, free, unused, links, todo>>
                ELSE /\ Becomes(PutChildren([Array EXCEPT !.units[t.i].off = o ^^ t.i], t.s, t.i, o, ls))
                     /\ links' = IF IsShared(lex, t.s) THEN (t.s :> o) @@ links ELSE links
                     /\ LET kids == Labels(t.s, <<>>)
                            ks == SetToSortSeq(kids, <)
                        IN todo' = [j \in 1..Len(ks) |-> [s |-> Below(t.s, <<ks[j]>>), i |-> o ^^ ks[j]]] \o Tail(todo)
                     /\ phase' = IF todo' = <<>> THEN "close" ELSE "place"
  /\ UNCHANGED lex

RECURSIVE CloseFrom(_, _)
CloseFrom(A, q) == IF q * Block >= Count(A) THEN A ELSE CloseFrom(CloseBlock(A, q), q + 1)
Close == /\ phase = "close"
         /\ Becomes(CloseFrom(Array, IF N \div Block > Open THEN N \div Block - Open ELSE 0))
         /\ phase' = "done"
         /\ UNCHANGED <<lex, links, todo>>

Next == Choose \/ Begin \/ Place \/ Close
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Begin \/ Place \/ Close)

(* ------------------------------ properties ------------------------------ *)
\* Units that can still be used are those of open blocks, and the circle has them all.
InOpen(i) == i \div Block + Open >= N \div Block
FreeUnits == {i \in DOMAIN units : ~extra[i].fixed}
CircleOK ==
  phase \in {"place", "close"} =>
    /\ \A i \in FreeUnits : InOpen(i)
    /\ (FreeUnits = {}) = (free = N)
    /\ \A i \in FreeUnits : /\ extra[i].next \in FreeUnits /\ extra[i].prev \in FreeUnits
                            /\ extra[extra[i].next].prev = i
    /\ FreeUnits # {} =>
         LET walk[m \in 0..Cardinality(FreeUnits)] == IF m = 0 THEN free ELSE extra[walk[m-1]].next
         IN {walk[m] : m \in 0..(Cardinality(FreeUnits)-1)} = FreeUnits /\ walk[Cardinality(FreeUnits)] = free

\* What a reader finds: it looks at any target without asking.
Target(i, b) == (i ^^ units[i].off) ^^ b
Inside(i) == \A b \in 0..(Block-1) : Target(i, b) < N
Follows(i, b) == LET t == units[Target(i, b)] IN ~t.leaf /\ t.label = b
RECURSIVE Read(_, _)
Read(i, fuel) ==
  IF fuel = 0 \/ ~Inside(i) THEN <<[k |-> <<>>, v |-> -3]>>
  ELSE LET t == units[Target(i, 0)]
           own == IF units[i].ends THEN <<[k |-> <<>>, v |-> IF t.leaf THEN t.val ELSE -2]>> ELSE <<>>
           bs == SetToSortSeq({b \in 1..(Block-1) : Follows(i, b)}, <)
           sub(b) == LET r == Read(Target(i, b), fuel - 1)
                     IN [j \in 1..Len(r) |-> [k |-> <<b>> \o r[j].k, v |-> r[j].v]]
       IN own \o FlattenSeq([j \in 1..Len(bs) |-> sub(bs[j])])

Exact == phase = "done" => /\ Read(0, MaxLen + 2) = lex
                           /\ \A i \in DOMAIN units : units[i].off % Block = 0 \/ units[i].off < OffsetMax
                           \* a byte 0 is never followed
                           /\ \A i \in DOMAIN units : extra[i].fixed
\* Unused units are counted: the others are the root, the children and the leaves.
RECURSIVE Passed(_, _)
Passed(seen, new) ==
  IF new = {} THEN seen
  ELSE LET s == seen \cup new
           nx == UNION {{Target(i, b) : b \in {x \in 1..(Block-1) : Follows(i, x)}}
                         \cup (IF units[i].ends THEN {Target(i, 0)} ELSE {}) : i \in {j \in new : ~units[j].leaf}}
       IN Passed(s, nx \ s)
CountedUnused == phase = "done" => unused = N - Cardinality(Passed({}, {0}))
\* The null byte leads nowhere.
NoNull == phase = "done" => \A i \in Passed({}, {0}) : ~units[i].leaf /\ i # Target(i, 0) => ~Follows(i, 0)
\* Building only fails when the array is as large as offsets can tell.
FailsOnlyFull == phase = "failed" => N >= OffsetMax * Block
=============================================================================
