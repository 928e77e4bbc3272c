------------------------------ MODULE GenTool ------------------------------
(* Every lexicon file of up to MaxLines lines over a few keys and values with  *)
(* every combination of options, with what the tool has to make of it.         *)
EXTENDS Tool, Json
CONSTANTS MaxLines, Emit
VARIABLES o, lines

Texts0 == {<<>>, <<97>>, <<97, 98>>, <<98>>}
Opts == [tab : BOOLEAN, sort : BOOLEAN, guide : BOOLEAN, ranked : BOOLEAN, index : BOOLEAN, utfc : BOOLEAN]
Line(k, w) == [k |-> k, cs |-> k, v |-> IF w = 1 THEN 7 ELSE IF w = 2 THEN -1 ELSE 0, big |-> w = 3, blank |-> FALSE]
\* nothing at all, where a key and a value are expected
Blank == [k |-> <<>>, cs |-> <<>>, v |-> 0, big |-> FALSE, blank |-> TRUE]
AllLines(oo) == {Line(k, w) : k \in Texts0, w \in (IF oo.tab THEN {1, 2, 3} ELSE {1})}
                \cup (IF oo.tab THEN {Blank} ELSE {})
GInit == o \in Opts /\ lines = <<>> /\ ~(o.guide /\ o.ranked)
GNext == /\ Len(lines) < MaxLines
         /\ \E x \in AllLines(o) : lines' = Append(lines, x)
         /\ UNCHANGED o
Queries == <<<<>>, <<97>>, <<97, 98>>, <<97, 98, 99>>, <<98>>, <<99>>>>
B == Built(o, lines)
\* Sorting makes every lexicon acceptable, and nothing is lost or added.
ToolOK == /\ o.sort => B.ok
          /\ B.ok => /\ Ascending(B.L)
                     /\ {B.L[i].k : i \in 1..Len(B.L)} = {Texts(o, lines)[i].k : i \in 1..Len(Texts(o, lines))}
                     /\ \A i \in 1..Len(B.L) : B.L[i].v \in 0..MaxValue
          /\ B = Built([o EXCEPT !.utfc = ~@], lines)
EmitTool == (Emit /\ lines # <<>>) => PrintT("VEC" \o ToJson([o |-> o, lines |-> lines, ok |-> B.ok, L |-> B.L,
               q |-> Queries,
               below |-> [i \in 1..Len(Queries) |-> IF HasGuide(o) THEN Under(B.L, Queries[i]) ELSE PrefixesIn(B.L, Queries[i])]]))
=============================================================================
