---------------------------- MODULE GenSystem ----------------------------
(* Bounded histories of the whole object system (two builders, two         *)
(* automata, dictionaries made on the way), printed for replay.  Every     *)
(* state also is checked against SysOK and against Frozen: what was built  *)
(* stays what it was.                                                       *)
EXTENDS DawgSystem, Json
CONSTANTS Depth, Builders, Autos, Emit
VARIABLES hist, made    \* calls so far; dictionaries with the listing they were built from

SKeys == {<<1>>, <<1, 1>>, <<2>>}
SVals == {0, 1}

GInit == /\ builders = [b \in Builders |-> <<>>] /\ autos = [a \in Autos |-> <<>>]
         /\ dicts = <<>> /\ cursors = <<>> /\ hist = <<>> /\ made = 0
Do(h) == hist' = Append(hist, h)
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E b \in Builders, k \in SKeys, v \in SVals :
          LET r == Accepts(builders[b], k, v)
          IN Insert(b, k, v, r) /\ Do([op |-> "insert", b |-> b, k |-> k, v |-> v, r |-> r]) /\ UNCHANGED made
     \/ \E b \in Builders, a \in Autos : Finish(b, a) /\ Do([op |-> "finish", b |-> b, a |-> a]) /\ UNCHANGED made
     \/ \E a \in Autos : autos[a] # <<>> /\ ClearAuto(a) /\ Do([op |-> "clear", a |-> a]) /\ UNCHANGED made
     \/ \E a \in Autos : Build(a, made + 1) /\ Do([op |-> "build", a |-> a, d |-> made + 1]) /\ made' = made + 1

EmitSys == (Emit /\ Len(hist) = Depth /\ (\E i \in DOMAIN hist : hist[i].op = "finish"))
             => PrintT("VEC" \o ToJson([hist |-> hist]))

Frozen == [][\A d \in DOMAIN dicts : dicts'[d] = dicts[d]]_<<sysvars, hist, made>>
GSpec == GInit /\ [][GNext]_<<sysvars, hist, made>>
=============================================================================
