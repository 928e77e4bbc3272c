-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* dawgtool: a lexicon file becomes a dictionary file or the run fails;    *)
(* queries are answered from the dictionary file.                          *)
(*                                                                         *)
(* A line is [k |-> bytes, cs |-> code points, v |-> value, big |-> BOOL]; *)
(* v = -1 stands for all negative values, big for all above 2^31 - 1.      *)
(* Options: [tab, sort, guide, ranked, index, utfc], all BOOLEAN.          *)
(***************************************************************************)
EXTENDS Lexicon, Utfc

MaxValue == 2147483647
HasGuide(o)  == o.guide \/ o.ranked
HasIndex(o)  == o.index /\ HasGuide(o)

StoredAs(o, x) == IF o.utfc THEN Encode(x.cs) ELSE x.k
LineValue(o, x) == IF ~o.tab THEN 0 ELSE IF x.big THEN MaxValue ELSE IF x.v < 0 THEN 0 ELSE x.v

\* Lines without any text are passed over.
Texts(o, lines) == SelectSeq(lines, LAMBDA x : ~x.blank /\ (o.tab \/ x.k # <<>>))

Refused == [ok |-> FALSE, L |-> <<>>]
\* The keys and values, listed by key; a later line replaces an earlier one with the same key.
Listed(o, ls) ==
  LET last(k) == Max({i \in 1..Len(ls) : ls[i].k = k})
      ks == SetToSortSeq({ls[i].k : i \in 1..Len(ls)}, LexLt)
  IN [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> LineValue(o, ls[last(ks[i])])]]
InOrder(o, ls) == \A i \in 1..(Len(ls)-1) : LexLeq(StoredAs(o, ls[i]), StoredAs(o, ls[i+1]))
Built(o, lines) ==
  LET ls == Texts(o, lines)
  IN IF \E i \in 1..Len(ls) : HasNull(StoredAs(o, ls[i])) THEN Refused
     ELSE IF ~o.sort /\ ~InOrder(o, ls) THEN Refused
     ELSE [ok |-> TRUE, L |-> Listed(o, ls)]

(* ------------------------------- answers -------------------------------- *)
Listing(s) == {s[i] : i \in 1..Len(s)}
\* s has the elements of t, which are different, in some order.
Permutes(s, t) == Len(s) = Len(t) /\ Listing(s) = Listing(t)
PrefixesIn(L, q) == SelectSeq(L, LAMBDA e : IsPrefix(e.k, q))
\* a: the list printed for q
AnswerOK(o, L, q, a) ==
  IF ~HasGuide(o) THEN Permutes(a, PrefixesIn(L, q))
  ELSE IF o.ranked THEN /\ Permutes(a, Under(L, q))
                        /\ \A i \in 1..(Len(a)-1) : a[i].v >= a[i+1].v
  ELSE IF o.utfc THEN Permutes(a, Under(L, q))
  ELSE a = Under(L, q)
\* n: the number printed for q (-1: not found); names: the numbered list
NumberOK(o, L, q, n, names) ==
  IF ~Has(L, q) THEN n = -1
  ELSE n \in 0..(Len(names)-1) /\ names[n+1] = q
NamesOK(o, L, names) ==
  LET ks == [i \in 1..Len(L) |-> L[i].k]
  IN IF o.ranked \/ o.utfc THEN Permutes(names, ks) ELSE names = ks
=============================================================================
