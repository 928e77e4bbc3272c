--------------------------- MODULE GenHistories ---------------------------
(* Every history of up to Depth insertions into one builder, over a small   *)
(* universe with null bytes, negative values, repetitions and keys out of   *)
(* order; printed with the results the specification gives, for replay.     *)
EXTENDS Lexicon, Json
CONSTANTS Depth, Emit
VARIABLES L,      \* accepted so far
          hist    \* the calls and their results

\* 1, 2: symbols in ascending order; 0: the null byte
KeyPool == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<0>>, <<1, 0>>, <<1, 0, 1>>}
ValPool == {-1, 0, 1}

Init == L = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E k \in KeyPool, v \in ValPool :
             LET r == Accepts(L, k, v)
             IN /\ L' = IF r THEN Inserted(L, k, v) ELSE L
                /\ hist' = Append(hist, [k |-> k, v |-> v, r |-> r])

EmitHistory == (Emit /\ Len(hist) = Depth) => PrintT("VEC" \o ToJson([hist |-> hist, lex |-> L]))

HistOK ==
  /\ LexiconOK(Whole(L))
  \* exactly the accepted ones are there, each with its last accepted value
  /\ \A k \in KeyPool :
       LET acc == {i \in 1..Len(hist) : hist[i].k = k /\ hist[i].r}
       IN IF acc = {} THEN ~Has(L, k) ELSE Find(L, k) = hist[Max(acc)].v
  /\ \A i \in 1..Len(hist) : hist[i].v < 0 => ~hist[i].r
=============================================================================
