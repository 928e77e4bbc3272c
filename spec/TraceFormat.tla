----------------------------- MODULE TraceFormat -----------------------------
(* Judges saved files, byte by byte for small dictionaries, and step by step   *)
(* (one unit, seen with the neighbourhood of its key) for large ones.          *)
EXTENDS Format, Functions, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, W           \* the lexicon the file was made from
tvars == <<l, W>>
TraceInit == l = 1 /\ W = Whole(<<>>)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Asks(op) == Is(op) /\ UNCHANGED W
L == W.win

TReset == Is("reset") /\ W' = Whole(<<>>)
TLexicon == Is("lexicon") /\ W' = [below |-> E.below, win |-> E.win, total |-> E.total] /\ LexiconOK(W')

(* -------------------------------- whole files --------------------------- *)
Head4 == Number(E.head)
TDict == /\ Asks("dictfile") /\ IsWhole(W)
         /\ Head4 = Len(E.units)
         /\ DictionaryOK(E.units, L)
         /\ E.unused = UnusedUnits(E.units)
\* An empty dictionary has an empty guide.
TGuide == /\ Asks("guidefile") /\ IsWhole(W) /\ Head4 = Len(E.pairs)
          /\ IF L = <<>> THEN E.pairs = <<>> \/ GuideOK(E.units, E.pairs) ELSE GuideOK(E.units, E.pairs)
TRanked == /\ Asks("rankedfile") /\ IsWhole(W) /\ Head4 = Len(E.pairs)
           /\ IF L = <<>> THEN E.pairs = <<>> \/ Len(E.pairs) = Len(E.units) ELSE RankedOK(E.units, E.pairs, Depth(L))
TIndex == /\ Asks("indexfile") /\ IsWhole(W) /\ Head4 = Len(E.counts)
          /\ IndexOK(E.units, E.counts, Depth(L))

(* ------------------------------ unit by unit ----------------------------- *)
\* At position p, unit i with bytes u: byte b leads to unit j with bytes t.
TStep == /\ Asks("fstep") /\ Decides(W, Append(E.p, E.b))
         /\ E.inside /\ E.j = Target(E.i, E.u, E.b)
         /\ (~IsLeaf(E.t) /\ UnitLabel(E.t) = E.b) = HasPrefix(L, Append(E.p, E.b))
TValue == /\ Asks("fvalue") /\ Decides(W, E.p)
          /\ EndsHere(E.u) = Has(L, E.p)
          /\ Has(L, E.p) => /\ E.j = Target(E.i, E.u, 0) /\ E.inside
                            /\ IsLeaf(E.t) /\ LeafValue(E.t) = Find(L, E.p)
TGuideNode == Asks("fguide") /\ GuideNodeOK(E.labels, E.child, E.sibs)
TRankedNode == Asks("franked") /\ RankedNodeOK(E.labels, E.best, E.child, E.sibs)
TIndexNode == Asks("findex") /\ Number(E.count) = E.own + FoldFunction(+, 0, E.kids)
TSizes == Asks("fsizes") /\ \A i \in DOMAIN E.counts : E.counts[i] = E.units
TUnused == Asks("funused") /\ E.unused = E.units - E.used

(* ------------------------- files made by dawgtool ------------------------ *)
\* The parts that were asked for, one after the other and nothing else; r: what the program said of them.
TParts == /\ Asks("parts")
          /\ E.left = 0
          /\ E.sizes = <<E.r.dict>> \o (IF E.guide THEN <<E.r.guide>> ELSE <<>>) \o (IF E.guide /\ E.index THEN <<E.r.index>> ELSE <<>>)
          /\ E.r.dict = 4 * E.r.units
          /\ E.guide => E.r.guide = 2 * E.r.gunits
          /\ (E.guide /\ E.index) => E.r.index = 4 * E.r.iunits
Ratio(r) == LET d == r.percent * r.units - 10000 * r.unused IN 2 * d <= r.units + 2 /\ -2 * d <= r.units + 2
TReport == /\ Asks("report") /\ IsWhole(W)
           /\ LET z == Sizes(L)
              IN /\ E.r.keys = E.lines
                 /\ E.r.states = z.states /\ E.r.transitions = z.transitions
                 /\ E.r.mstates = z.mergedStates /\ E.r.merging = z.mergingStates /\ E.r.mtransitions = z.mergedTransitions
           /\ E.r.units = Len(E.units) /\ E.r.unused = UnusedUnits(E.units)
           /\ Ratio(E.r)
TReportLarge == /\ Asks("reportlarge")
                /\ E.r.keys = E.lines
                /\ E.r.states = E.z.states /\ E.r.transitions = E.z.transitions
                /\ E.r.mstates = E.z.mergedStates /\ E.r.merging = E.z.mergingStates /\ E.r.mtransitions = E.z.mergedTransitions
                /\ E.r.units = E.units /\ E.r.unused = E.unused
                /\ Ratio(E.r)

TraceNext == \/ TParts \/ TReport \/ TReportLarge
             \/ TReset \/ TLexicon \/ TDict \/ TGuide \/ TRanked \/ TIndex
             \/ TStep \/ TValue \/ TGuideNode \/ TRankedNode \/ TIndexNode \/ TSizes \/ TUnused
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
