----------------------------- MODULE TraceParts -----------------------------
(* Judges a recorded run of many objects: every call is a step of Parts, and *)
(* every look at an object shows what Parts says it holds.                    *)
EXTENDS Parts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, refs    \* next line; what fresh objects of a content are saved as
tvars == <<pvars, l, refs>>

TraceInit == PInit /\ l = 1 /\ refs = <<>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Step(op) == Is(op) /\ UNCHANGED refs
Asks(op) == Step(op) /\ UNCHANGED pvars

TReset == /\ Is("reset") /\ refs' = <<>>
          /\ pautos' = Nothing /\ pdicts' = Nothing /\ pguides' = Nothing
          /\ pranked' = Nothing /\ pindices' = Nothing /\ pfiles' = Nothing /\ pcursors' = Nothing

TRefill == Step("refill") /\ Refill(E.a, E.lex)
\* a cleared automaton says of itself what a new one does
TClearA == Step("clearauto") /\ E.numbers = E.new /\ EmptyAuto(E.a)
TBuild  == Step("build") /\ E.ok /\ MakeDict(E.a, E.d)
TGuide  == Step("guide") /\ E.ok /\ MakeGuide(E.a, E.d, E.g)
TRank   == Step("rank") /\ E.ok /\ MakeRanked(E.a, E.d, E.g)
TIndex  == Step("index") /\ E.ok /\ MakeIndex(E.d, GuideOf(E.kind, E.g), E.x)
TNew    == Step("new") /\ IF E.kind = "guide" THEN NewGuide(E.g) ELSE NewRanked(E.g)
TClear  == Step("cleared") /\ IF E.kind = "guide" THEN ClearGuide(E.g) ELSE ClearRanked(E.g)
TSave   == Step("save") /\ E.ok /\ SaveTo(E.kind, E.i, E.f)
TLoad   == Step("load") /\ E.ok = (E.cut = 0) /\ LoadFrom(E.kind, E.i, E.f, E.ok)

\* Fresh objects of each content: the bytes all others of that content are saved as.
TRef == /\ Is("ref") /\ UNCHANGED pvars
        /\ <<E.kind, E.has>> \notin DOMAIN refs
        /\ refs' = Put(refs, <<E.kind, E.has>>, E.dig)

\* A cleared guide is saved like the guide of no keys; an automaton is looked at through
\* a dictionary built from it, and says of itself what a fresh one of that listing does.
Content(kind, i) == IF kind = "auto" THEN <<"dict", pautos[i]>> ELSE <<kind, Holding(kind)[i]>>
TLook == /\ Asks("look")
         /\ \A n \in 1..Len(E.objs) :
              LET o == E.objs[n]
              IN /\ o.dig = refs[Content(o.kind, o.id)]
                 /\ o.kind = "auto" /\ pautos[o.id] # <<>> => o.numbers = refs[<<"numbers", pautos[o.id]>>]

TFinds == /\ Asks("finds")
          /\ \A n \in 1..Len(E.keys) : \A q \in 1..Len(E.keys[n].v) : E.keys[n].v[q] = Find(pdicts[E.d], E.keys[n].k)

\* A complete listing, by a completer made at any time for these two objects.
TList ==
  /\ Asks("list")
  /\ Leads(GuideOf(E.kind, E.g), pdicts[E.d])
  /\ LET want == Listed(pdicts[E.d], GuideOf(E.kind, E.g))
     IN /\ E.ended
        /\ \A n \in 1..Len(E.out) : E.out[n].n = Len(E.out[n].k)
        /\ IF E.kind = "guide" THEN [n \in 1..Len(E.out) |-> [k |-> E.out[n].k, v |-> E.out[n].v]] = want
           ELSE /\ Len(E.out) = Len(want)
                /\ {[k |-> E.out[n].k, v |-> E.out[n].v] : n \in 1..Len(E.out)} = ToSet(want)
                /\ \A n \in 1..(Len(E.out)-1) : E.out[n+1].v <= E.out[n].v

\* A listing under way while other calls are made.
TBegin == Step("begin") /\ Begin(E.c, E.kind, E.d, E.g)
TGoOn ==
  /\ Step("goon") /\ E.c \in DOMAIN pcursors
  /\ LET left == pcursors[E.c].left
     IN IF E.r THEN \E i \in 1..Len(left) : left[i] = [k |-> E.k, v |-> E.v] /\ E.n = Len(E.k) /\ GoOn(E.c, i)
        ELSE left = <<>> /\ UNCHANGED pvars

\* Numbers of strings (back: what the number leads to), and what is at numbers beyond.
TNums ==
  /\ Asks("nums")
  /\ LET L == pdicts[E.d]
         G == GuideOf(E.kind, E.g)
         all == Listed(L, G)
     IN /\ Numberable(L, G, pindices[E.x])
        /\ E.total = Total(pindices[E.x])
        /\ \A n \in 1..Len(E.keys) :
             LET q == E.keys[n] IN
             IF ~Has(all, q.k) THEN q.n = NotFound
             ELSE /\ q.n \in 0..(Len(all)-1) /\ q.some /\ q.back = q.k
                  /\ E.kind = "guide" => all[q.n + 1].k = q.k
        /\ \A n \in 1..Len(E.beyond) : E.beyond[n].i >= Len(all) => ~E.beyond[n].some

TraceNext ==
  \/ TReset \/ TRefill \/ TClearA \/ TBuild \/ TGuide \/ TRank \/ TIndex \/ TNew \/ TClear \/ TSave \/ TLoad
  \/ TRef \/ TLook \/ TFinds \/ TList \/ TBegin \/ TGoOn \/ TNums
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
