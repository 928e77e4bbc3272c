------------------------------ MODULE GenParts ------------------------------
(* Every state of a few objects and every call in it: a behaviour is printed *)
(* for each transition of the state graph (the calls by which TLC came to    *)
(* its first state, and the call), to be replayed with a look at all objects *)
(* after each call.                                                          *)
EXTENDS Parts, Json
CONSTANTS Lexs, Dicts, Guides, Depth, Curs, Emit
VARIABLES how

L0 == <<>>
L1 == <<[k |-> <<1>>, v |-> 0], [k |-> <<1, 1>>, v |-> 1], [k |-> <<2>>, v |-> 0]>>
L2 == <<[k |-> <<>>, v |-> 1], [k |-> <<2>>, v |-> 0]>>
AllLexs == <<L0, L1, L2>>

GInit == /\ pautos = (1 :> <<>>) /\ pdicts = Nothing /\ pguides = [g \in 1..Guides |-> <<>>]
         /\ pranked = (1 :> <<>>) /\ pindices = Nothing /\ pfiles = Nothing /\ pcursors = Nothing /\ how = <<>>

Did(h) == /\ how' = Append(how, h)
          /\ (Emit => PrintT("VEC" \o ToJson([calls |-> Append(how, h)])))

GNext ==
  /\ Len(how) < Depth
  /\ \/ \E i \in 1..Lexs : AllLexs[i] # pautos[1] /\ Refill(1, AllLexs[i]) /\ Did([op |-> "refill", a |-> 1, lex |-> AllLexs[i]])
     \/ pautos[1] # <<>> /\ EmptyAuto(1) /\ Did([op |-> "clearauto", a |-> 1])
     \/ \E d \in 1..Dicts : MakeDict(1, d) /\ Did([op |-> "build", a |-> 1, d |-> d])
     \/ \E d \in DOMAIN pdicts, g \in 1..Guides : MakeGuide(1, d, g) /\ Did([op |-> "guide", a |-> 1, d |-> d, g |-> g])
     \/ \E d \in DOMAIN pdicts : MakeRanked(1, d, 1) /\ Did([op |-> "rank", a |-> 1, d |-> d, g |-> 1])
     \/ \E d \in DOMAIN pdicts, g \in 1..Guides : MakeIndex(d, pguides[g], 1) /\ Did([op |-> "index", kind |-> "guide", d |-> d, g |-> g, x |-> 1])
     \/ \E d \in DOMAIN pdicts : MakeIndex(d, pranked[1], 1) /\ Did([op |-> "index", kind |-> "ranked", d |-> d, g |-> 1, x |-> 1])
     \/ \E g \in 1..Guides : pguides[g] # <<>> /\ ClearGuide(g) /\ Did([op |-> "cleared", kind |-> "guide", g |-> g])
     \/ pranked[1] # <<>> /\ ClearRanked(1) /\ Did([op |-> "cleared", kind |-> "ranked", g |-> 1])
     \/ \E kind \in {"dict", "guide", "ranked", "index"} : \E i \in DOMAIN Holding(kind) :
          SaveTo(kind, i, 1) /\ Did([op |-> "save", kind |-> kind, i |-> i, f |-> 1])
     \/ \E kind \in {"dict", "guide", "ranked", "index"}, i \in {1, 2}, ok \in BOOLEAN :
          /\ i <= (IF kind = "dict" THEN Dicts ELSE IF kind = "guide" THEN Guides ELSE 1)
          /\ (~ok => i \in DOMAIN Holding(kind))
          /\ LoadFrom(kind, i, 1, ok) /\ Did([op |-> "load", kind |-> kind, i |-> i, f |-> 1, ok |-> ok])
     \/ /\ Curs
        /\ \E kind \in {"guide", "ranked"}, d \in DOMAIN pdicts, g \in 1..Guides :
             /\ g \in DOMAIN (IF kind = "guide" THEN pguides ELSE pranked)
             /\ Begin(1, kind, d, g) /\ Did([op |-> "begin", kind |-> kind, d |-> d, g |-> g])
     \/ \E i \in 1..4 : GoOn(1, i) /\ Did([op |-> "goon", i |-> i])

View == pvars
GSpec == GInit /\ [][GNext]_<<pvars, how>>
=============================================================================
