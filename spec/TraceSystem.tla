---------------------------- MODULE TraceSystem ----------------------------
(* Judges a recorded run of the real library: every line of the trace must  *)
(* be a step of DawgSystem (or a query with the answer Lexicon gives).      *)
EXTENDS DawgSystem, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line
          seen    \* listing -> digest of the bytes it was saved as
tvars == <<builders, autos, dicts, cursors, l, seen>>

TraceInit == SysInit /\ l = 1 /\ seen = <<>>

E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Asks(op) == Is(op) /\ Query /\ UNCHANGED seen
D == dicts[E.d]
L == dicts[E.d].win

AllEq(s, x) == \A i \in DOMAIN s : s[i] = x

TReset == Is("reset") /\ builders' = <<>> /\ autos' = <<>> /\ dicts' = <<>> /\ cursors' = <<>> /\ seen' = <<>>

(* --------------------------- building steps ----------------------------- *)
TNewBuilder == Is("builder") /\ NewBuilder(E.b) /\ UNCHANGED seen
\* A builder whose history is not in the trace: all that matters is the end of its listing.
TListing == Is("listing") /\ Ascending(E.L) /\ builders' = Set(builders, E.b, E.L)
            /\ UNCHANGED <<autos, dicts, cursors, seen>>
TInsert == Is("insert") /\ Insert(E.b, E.k, E.v, E.r) /\ UNCHANGED seen
TNewAuto == Is("auto") /\ NewAuto(E.a) /\ UNCHANGED seen
TFinish == Is("finish") /\ Finish(E.b, E.a) /\ UNCHANGED seen
TClear  == Is("clear") /\ ClearAuto(E.a) /\ UNCHANGED seen
TBuild  == Is("build") /\ Build(E.a, E.d) /\ UNCHANGED seen
\* A dictionary built from keys in order, all accepted: seen whole or through a window.
TLexicon == Is("lexicon")
            /\ LET W == [below |-> E.below, win |-> E.win, total |-> E.total]
               IN LexiconOK(W) /\ Load(E.d, W, TRUE)
            /\ UNCHANGED seen
TLoad   == Is("load") /\ E.from \in DOMAIN dicts /\ Load(E.d, dicts[E.from], E.ok) /\ UNCHANGED seen

\* Equal contents are saved as equal bytes.
TBytes == /\ Is("bytes") /\ Query /\ IsWhole(D)
          /\ IF L \in DOMAIN seen THEN seen[L] = E.digest /\ UNCHANGED seen
             ELSE seen' = Set(seen, L, E.digest)

(* ------------------------------ exact match ----------------------------- *)
TFind == /\ Asks("find") /\ Decides(D, E.k)
         /\ AllEq(E.has, Has(L, E.k))
         /\ AllEq(E.val, Find(L, E.k))
         /\ Has(L, E.k) => AllEq(E.out, Find(L, E.k))

(* ------------------------------ navigation ------------------------------ *)
TStep == /\ Asks("step") /\ Decides(D, Append(E.p, E.l))
         /\ E.r = HasPrefix(L, Append(E.p, E.l))
         /\ E.moved = FALSE
TNode == /\ Asks("node") /\ IsWhole(D)
         /\ E.labels = SetToSortSeq(Labels(L, E.p), <)
         /\ E.has = Has(L, E.p) /\ (E.has => E.val = Find(L, E.p))
TAt   == /\ Asks("at") /\ Decides(D, E.p)
         /\ E.has = Has(L, E.p) /\ (E.has => E.val = Find(L, E.p))
TFollow == /\ Asks("follow") /\ Decides(D, E.s)
           /\ AllEq(E.ok, Matched(L, E.s) = Len(E.s))
           /\ AllEq(E.n, E.start + Matched(L, E.s))
           /\ E.there = TRUE

(* ------------------------------ automaton ------------------------------- *)
TCounters == Asks("counters") /\ E.sizes = Sizes(autos[E.a])
TListingCounters == Asks("sizes") /\ E.sizes = Sizes(E.L)

\* The automaton as a graph: states[i] = [id, tr], tr = list of [l, to, v] (l = 0: end of key with value v).
GraphState(G, s) == CHOOSE i \in 1..Len(G.states) : G.states[i].id = s
RECURSIVE GraphListing(_, _, _)
GraphListing(G, s, fuel) ==
  IF fuel = 0 THEN <<[k |-> <<>>, v |-> -999]>>
  ELSE LET st == G.states[GraphState(G, s)]
           part(t) == IF t.l = 0 THEN <<[k |-> <<>>, v |-> t.v]>>
                      ELSE LET sub == GraphListing(G, t.to, fuel - 1)
                           IN [i \in 1..Len(sub) |-> [k |-> <<t.l>> \o sub[i].k, v |-> sub[i].v]]
       IN FlattenSeq([i \in 1..Len(st.tr) |-> part(st.tr[i])])
MaxKeyLen(K) == IF K = <<>> THEN 0 ELSE Max({Len(K[i].k) : i \in 1..Len(K)})
TGraph == /\ Asks("graph")
          /\ LET G == E
                 K == autos[E.a]
                 ids == {G.states[i].id : i \in 1..Len(G.states)}
             IN /\ IF K = <<>> THEN G.states = <<>>
                   ELSE /\ G.root \in ids
                        /\ GraphListing(G, G.root, MaxKeyLen(K) + 1) = K
                /\ Cardinality(ids) = Len(G.states)
                \* minimal: no two states with the same continuations
                /\ \A i, j \in 1..Len(G.states) : i # j => G.states[i].tr # G.states[j].tr
                /\ \A i \in 1..Len(G.states) : \A j \in 1..(Len(G.states[i].tr)-1) :
                      G.states[i].tr[j].l < G.states[i].tr[j+1].l
                /\ Len(G.states) + 1 = Sizes(K).states
                /\ Len(G.merging) = Sizes(K).mergingStates
\* Two states of a large automaton, by their transitions.
TTwoStates == Asks("twostates") /\ E.x # E.y

TAscend == Asks("ascend") /\ E.before < E.now
\* A reported number against the automaton (proved right by the other events) as counted.
TTally == Asks("tally") /\ E.said = E.counted

(* ------------------------------ completion ------------------------------ *)
TStart == Is("start") /\ Start(E.c, E.d, E.p, E.text, E.kind) /\ UNCHANGED seen
TNext ==
  /\ Is("next") /\ UNCHANGED seen
  /\ IF E.r
     THEN LET cu == cursors[E.c]
              got(i) == cu.text \o cu.left[i].k = E.k /\ cu.left[i].v = E.v
          IN /\ E.n = Len(E.k)
             /\ \E i \in 1..Len(cu.left) : got(i) /\ Return(E.c, i)
     ELSE End(E.c)

\* One step of a listing of a large dictionary: what comes after entry E.after under p.
TSucc ==
  /\ Asks("succ")
  /\ LET beyond == {i \in 1..Len(L) : IsPrefix(E.p, L[i].k) /\ (E.after.some => LexLt(E.after.k, L[i].k))}
         known == /\ E.after.some => Has(L, E.after.k)
                  /\ ~E.after.some => (AtStart(D) \/ (Len(L) > 0 /\ LexLt(L[1].k, E.p)))
     IN /\ known
        /\ IF beyond = {}
           THEN /\ AtEnd(D) \/ (Len(L) > 0 /\ ~IsPrefix(E.p, L[Len(L)].k) /\ LexLt(E.p, L[Len(L)].k))
                /\ E.r = FALSE
           ELSE LET i == Min(beyond)
                IN /\ E.r = TRUE
                   /\ E.k = E.text \o Drop(L[i].k, Len(E.p))
                   /\ E.v = L[i].v
                   /\ E.n = Len(E.k)

\* One key returned by a ranked listing below p, how often a key was returned by a complete one,
\* and two values in succession.
TRanked ==
  /\ Asks("ranked")
  /\ IsPrefix(E.text, E.k) /\ E.n = Len(E.k)
  /\ LET full == E.p \o Drop(E.k, Len(E.text))
     IN Decides(D, full) /\ Has(L, full) /\ Find(L, full) = E.v
TListed == /\ Asks("listed") /\ Decides(D, E.k)
           /\ E.times = IF IsPrefix(E.p, E.k) /\ Has(L, E.k) THEN 1 ELSE 0
TDescend == Asks("descend") /\ E.now <= E.before
TExhausted == Asks("exhausted") /\ E.r = FALSE

(* --------------------------------- guides ------------------------------- *)
\* The labels an ordinary guide names at a position, and below its parent.
TGuide == /\ Asks("guide") /\ IsWhole(D)
          /\ E.child = FirstLabel(L, E.p)
          /\ E.p # <<>> => E.sibling = NextLabel(L, SubSeq(E.p, 1, Len(E.p)-1), E.p[Len(E.p)])
\* The first child of a ranked guide leads to (or, 0, is) a key of the highest value there.
TBest == /\ Asks("best") /\ IsWhole(D)
         /\ IF E.child = 0 THEN Has(L, E.p) /\ Find(L, E.p) = BestUnder(L, E.p)
            ELSE HasPrefix(L, Append(E.p, E.child)) /\ BestUnder(L, Append(E.p, E.child)) = BestUnder(L, E.p)

(* ------------------------------- numbering ------------------------------ *)
TRank == Asks("rank") /\ Decides(D, E.k) /\ AllEq(E.r, NumberOf(D, E.k))
TKeyAt ==
  /\ Asks("keyat")
  /\ IF E.i >= D.total THEN E.some = FALSE /\ E.s = <<>>
     ELSE /\ E.i >= D.below /\ E.i < D.below + Len(L)
          /\ E.some = TRUE /\ E.k = L[E.i - D.below + 1].k /\ E.s = E.k
\* The numbers stored in an index: keys at or below a position.
TCount == Asks("count") /\ IsWhole(D) /\ AllEq(E.r, CountUnder(L, E.p))
\* ... of a large dictionary, against the places of the first and the last key there.
TSpan  == Asks("span") /\ Decides(D, E.first) /\ IsPrefix(E.p, E.first) /\ Has(L, E.first)
          /\ (AtStart(D) \/ \E i \in 1..Len(L) : LexLt(L[i].k, E.p))
          /\ \A i \in 1..Len(L) : LexLt(L[i].k, E.first) => ~IsPrefix(E.p, L[i].k)
          /\ E.lo = Rank(D, E.first)
TSpanEnd == Asks("spanend") /\ Decides(D, E.last) /\ IsPrefix(E.p, E.last) /\ Has(L, E.last)
            /\ (AtEnd(D) \/ \E i \in 1..Len(L) : LexLt(E.last, L[i].k) /\ ~IsPrefix(E.p, L[i].k))
            /\ \A i \in 1..Len(L) : LexLt(E.last, L[i].k) => ~IsPrefix(E.p, L[i].k)
            /\ AllEq(E.r, Rank(D, E.last) - E.lo + 1)
TTotal == Asks("total") /\ AllEq(E.r, D.total)
\* Any one-to-one numbering (ranked guide): number and key lead to each other.
TNumOf == /\ Asks("numof") /\ Decides(D, E.k)
          /\ IF Has(L, E.k)
             THEN /\ \A i \in DOMAIN E.r : E.r[i] = E.r[1]
                  /\ E.r[1] \in 0..(D.total - 1) /\ E.some /\ E.back = E.k
             ELSE AllEq(E.r, NotFound)
TNumAt == /\ Asks("numat")
          /\ IF E.i >= D.total THEN E.some = FALSE /\ E.s = <<>>
             ELSE E.some = TRUE /\ Decides(D, E.k) /\ Has(L, E.k) /\ E.s = E.k /\ E.back = E.i

(* ------------------------- results, shared data ------------------------- *)
\* A result looked at again later, and shared data saved before and after.
TKept == Asks("kept") /\ E.before = E.after

TraceNext ==
  \/ TReset \/ TNewBuilder \/ TListing \/ TInsert \/ TNewAuto \/ TFinish \/ TClear \/ TBuild
  \/ TLexicon \/ TLoad \/ TBytes
  \/ TFind \/ TStep \/ TNode \/ TAt \/ TFollow
  \/ TCounters \/ TListingCounters \/ TGraph \/ TTwoStates \/ TAscend \/ TTally
  \/ TStart \/ TNext \/ TSucc \/ TRanked \/ TListed \/ TDescend \/ TExhausted
  \/ TGuide \/ TBest \/ TCount \/ TSpan \/ TSpanEnd \/ TRank \/ TKeyAt \/ TTotal \/ TNumOf \/ TNumAt \/ TKept

TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* One state per line and the initial one.
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
