----------------------------- MODULE GenCursors -----------------------------
(* All interleavings of two cursors (completers, ranked or not) over one       *)
(* dictionary up to a depth, for replay.  Checked on the way: a step of one    *)
(* cursor leaves the other and the dictionary alone, and what a cursor has     *)
(* returned since its start and what is left are the keys below its position.  *)
EXTENDS DawgSystem, Json
CONSTANTS Depth, Emit
VARIABLES hist, got      \* calls so far; what each cursor has returned since its start

Lexs == << <<[k |-> <<>>, v |-> 1], [k |-> <<1>>, v |-> 2], [k |-> <<1,1>>, v |-> 0], [k |-> <<2>>, v |-> 2]>>,
           <<[k |-> <<1>>, v |-> 0], [k |-> <<1,2>>, v |-> 3], [k |-> <<1,2,1>>, v |-> 1]>> >>
Curs == {1, 2}
Spots == {<<>>, <<1>>}
KindsOf == {<<"ascending", "ascending">>, <<"ranked", "ranked">>, <<"ascending", "ranked">>}

GInit == \E x \in 1..Len(Lexs), ks \in KindsOf :
  /\ builders = <<>> /\ autos = <<>> /\ cursors = <<>>
  /\ dicts = (1 :> Whole(Lexs[x]))
  /\ hist = <<[op |-> "make", lex |-> x, kinds |-> ks]>>
  /\ got = <<>>
Kind(c) == hist[1].kinds[c]
GNext ==
  /\ Len(hist) <= Depth
  /\ \/ \E c \in Curs, p \in Spots :
          /\ Start(c, 1, p, <<>>, Kind(c))
          /\ hist' = Append(hist, [op |-> "start", c |-> c, p |-> p])
          /\ got' = Set(got, c, [p |-> p, keys |-> {}])
     \/ \E c \in DOMAIN cursors :
          /\ hist' = Append(hist, [op |-> "next", c |-> c])
          /\ IF cursors[c].left = <<>> THEN End(c) /\ UNCHANGED got
             ELSE \E i \in 1..Len(cursors[c].left) :
                    /\ Return(c, i)
                    /\ got' = [got EXCEPT ![c].keys = @ \cup {cursors[c].left[i].k}]
gvars == <<sysvars, hist, got>>
GSpec == GInit /\ [][GNext]_gvars

Complete == \A c \in DOMAIN cursors :
  LET all == Below(dicts[1].win, got[c].p)
      left == cursors[c].left
  IN /\ got[c].keys \cap {left[i].k : i \in 1..Len(left)} = {}
     /\ got[c].keys \cup {left[i].k : i \in 1..Len(left)} = {all[i].k : i \in 1..Len(all)}
Apart == [][\A c \in DOMAIN cursors : hist'[Len(hist')].c # c => cursors'[c] = cursors[c]]_gvars
Shared == [][dicts' = dicts]_gvars
EmitCursors == (Emit /\ Len(hist) = Depth + 1) => PrintT("VEC" \o ToJson([hist |-> hist, lex |-> Lexs[hist[1].lex]]))
=============================================================================
