------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* All the objects a program may hold at once, each for itself: automata,  *)
(* dictionaries, guides, ranked guides, indices and saved files.  Every    *)
(* call changes one of them.  What an object holds is a listing (of keys   *)
(* and values, see Lexicon), and nothing else about its past matters: it   *)
(* is saved as the bytes of that listing, and answers for that listing.    *)
(*                                                                         *)
(*   automaton, dictionary   the listing it was finished with, built from  *)
(*   guide, ranked guide     the listing it leads through; <<>> if cleared *)
(*   index                   [of |-> the dictionary's listing,             *)
(*                            full |-> whether the guide led through it]   *)
(*   file                    [kind, has]: one part as it was saved         *)
(*                                                                         *)
(* Completers and indexers hold no keys: what they say when started or     *)
(* asked is a function of the parts they were made for (Listed, Numberable)*)
(* as those are at that moment.  A listing under way goes on whatever      *)
(* happens to other objects; when its own dictionary or guide is changed   *)
(* there is nothing to expect of it until it is started again.             *)
(***************************************************************************)
EXTENDS Lexicon

VARIABLES pautos, pdicts, pguides, pranked, pindices, pfiles,
          pcursors    \* listings under way: [kind, d, g, left]
pvars == <<pautos, pdicts, pguides, pranked, pindices, pfiles, pcursors>>

Nothing == <<>>    \* no objects yet: functions with an empty domain
PInit == /\ pautos = Nothing /\ pdicts = Nothing /\ pguides = Nothing
         /\ pranked = Nothing /\ pindices = Nothing /\ pfiles = Nothing /\ pcursors = Nothing

Put(f, x, y) == (x :> y) @@ f
\* The listings under way that go on when object i of a kind is changed.
Goes(c, kind, i) == ~(kind = "dict" /\ c.d = i) /\ ~(kind = c.kind /\ c.g = i)
Stops(kind, i) == LET on == {c \in DOMAIN pcursors : Goes(pcursors[c], kind, i)}
                  IN pcursors' = [c \in on |-> pcursors[c]]
IndexOf(L, G) == [of |-> L, full |-> L # <<>> /\ G = L]

(* ------------------------------- calls ---------------------------------- *)
\* Keys are inserted in order and the builder is finished into automaton a.
Refill(a, L) == pautos' = Put(pautos, a, L) /\ UNCHANGED <<pdicts, pguides, pranked, pindices, pfiles, pcursors>>
EmptyAuto(a) == a \in DOMAIN pautos /\ Refill(a, <<>>)

MakeDict(a, d) ==
  /\ a \in DOMAIN pautos
  /\ pdicts' = Put(pdicts, d, pautos[a]) /\ Stops("dict", d)
  /\ UNCHANGED <<pautos, pguides, pranked, pindices, pfiles>>

\* A guide is built for a dictionary and an automaton that hold the same.
Same(a, d) == a \in DOMAIN pautos /\ d \in DOMAIN pdicts /\ pautos[a] = pdicts[d]
MakeGuide(a, d, g) ==
  /\ Same(a, d)
  /\ pguides' = Put(pguides, g, pdicts[d]) /\ Stops("guide", g)
  /\ UNCHANGED <<pautos, pdicts, pranked, pindices, pfiles>>
MakeRanked(a, d, g) ==
  /\ Same(a, d)
  /\ pranked' = Put(pranked, g, pdicts[d]) /\ Stops("ranked", g)
  /\ UNCHANGED <<pautos, pdicts, pguides, pindices, pfiles>>

\* Through a guide of either kind, which is that of the dictionary or a cleared one.
Leads(G, L) == G = L \/ G = <<>>
MakeIndex(d, G, x) ==
  /\ d \in DOMAIN pdicts /\ Leads(G, pdicts[d])
  /\ pindices' = Put(pindices, x, IndexOf(pdicts[d], G))
  /\ UNCHANGED <<pautos, pdicts, pguides, pranked, pfiles, pcursors>>

NewGuide(g)  == pguides' = Put(pguides, g, <<>>) /\ Stops("guide", g) /\ UNCHANGED <<pautos, pdicts, pranked, pindices, pfiles>>
NewRanked(g) == pranked' = Put(pranked, g, <<>>) /\ Stops("ranked", g) /\ UNCHANGED <<pautos, pdicts, pguides, pindices, pfiles>>
ClearGuide(g)  == g \in DOMAIN pguides /\ NewGuide(g)
ClearRanked(g) == g \in DOMAIN pranked /\ NewRanked(g)

Holding(kind) == CASE kind = "dict" -> pdicts [] kind = "guide" -> pguides
                   [] kind = "ranked" -> pranked [] kind = "index" -> pindices

SaveTo(kind, i, f) ==
  /\ i \in DOMAIN Holding(kind)
  /\ pfiles' = Put(pfiles, f, [kind |-> kind, has |-> Holding(kind)[i]])
  /\ UNCHANGED <<pautos, pdicts, pguides, pranked, pindices, pcursors>>

\* Reading a file into an object, new or not; ok: none of the file is missing.
LoadFrom(kind, i, f, ok) ==
  /\ f \in DOMAIN pfiles /\ pfiles[f].kind = kind
  /\ IF ~ok THEN UNCHANGED pvars
     ELSE /\ pdicts'   = IF kind = "dict"   THEN Put(pdicts, i, pfiles[f].has) ELSE pdicts
          /\ pguides'  = IF kind = "guide"  THEN Put(pguides, i, pfiles[f].has) ELSE pguides
          /\ pranked'  = IF kind = "ranked" THEN Put(pranked, i, pfiles[f].has) ELSE pranked
          /\ pindices' = IF kind = "index"  THEN Put(pindices, i, pfiles[f].has) ELSE pindices
          /\ Stops(kind, i)
          /\ UNCHANGED <<pautos, pfiles>>

\* A completer is started at the root of dictionary d, through guide g of its kind.
GuideOf(kind, g) == IF kind = "guide" THEN pguides[g] ELSE pranked[g]
Begin(c, kind, d, g) ==
  /\ d \in DOMAIN pdicts /\ Leads(GuideOf(kind, g), pdicts[d])
  /\ pcursors' = Put(pcursors, c, [kind |-> kind, d |-> d, g |-> g,
                                   left |-> IF GuideOf(kind, g) = <<>> THEN <<>> ELSE pdicts[d]])
  /\ UNCHANGED <<pautos, pdicts, pguides, pranked, pindices, pfiles>>
\* The next key of it: the i-th of those left.
GoOn(c, i) ==
  /\ c \in DOMAIN pcursors
  /\ i \in 1..Len(pcursors[c].left)
  /\ IF pcursors[c].kind = "guide" THEN i = 1
     ELSE \A j \in 1..Len(pcursors[c].left) : pcursors[c].left[j].v <= pcursors[c].left[i].v
  /\ pcursors' = [pcursors EXCEPT ![c].left = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
  /\ UNCHANGED <<pautos, pdicts, pguides, pranked, pindices, pfiles>>

(* ------------------------------ questions ------------------------------- *)
\* What a completer started at the root says, for a guide that leads through the dictionary.
Listed(L, G) == IF G = <<>> THEN <<>> ELSE L
\* Numbers: X is an index of the dictionary L, made full (or there is nothing to number).
Numberable(L, G, X) == X.of = L /\ Leads(G, L) /\ (G = <<>> \/ X.full)
Total(X) == IF X.full THEN Len(X.of) ELSE 0

(* ----------------------------- properties ------------------------------- *)
PartsOK ==
  /\ \A f \in {pautos, pdicts, pguides, pranked} : \A i \in DOMAIN f : Ascending(f[i])
  /\ \A i \in DOMAIN pindices : pindices[i].full => pindices[i].of # <<>>
  \* a listing under way is of what its parts hold
  /\ \A c \in DOMAIN pcursors : LET cu == pcursors[c] IN
       /\ cu.left # <<>> => GuideOf(cu.kind, cu.g) = pdicts[cu.d]
       /\ ToSet(cu.left) \subseteq ToSet(pdicts[cu.d])

Differs(f, g) == {i \in DOMAIN g : i \notin DOMAIN f \/ f[i] # g[i]}
\* A call changes one object at most, and takes none away.
Alone == [][/\ Cardinality(Differs(pautos, pautos')) + Cardinality(Differs(pdicts, pdicts')) + Cardinality(Differs(pguides, pguides'))
               + Cardinality(Differs(pranked, pranked')) + Cardinality(Differs(pindices, pindices')) + Cardinality(Differs(pfiles, pfiles')) <= 1
            /\ DOMAIN pautos \subseteq DOMAIN pautos' /\ DOMAIN pdicts \subseteq DOMAIN pdicts' /\ DOMAIN pguides \subseteq DOMAIN pguides'
            /\ DOMAIN pranked \subseteq DOMAIN pranked' /\ DOMAIN pindices \subseteq DOMAIN pindices' /\ DOMAIN pfiles \subseteq DOMAIN pfiles']_pvars
=============================================================================
