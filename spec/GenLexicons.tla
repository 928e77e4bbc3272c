--------------------------- MODULE GenLexicons ---------------------------
(* Enumerates every lexicon over a small universe of keys and values and   *)
(* prints, for each, the answers that the specification gives to every     *)
(* query: the behaviours that the conformance driver replays into the      *)
(* code.  Symbols are 1..Syms (0 stands for the null byte and Syms+1 for a *)
(* byte no key uses); the driver maps them to bytes in ascending order.    *)
EXTENDS Lexicon, Json
CONSTANTS Syms, MaxLen, Vals, ProbeLen, Emit
VARIABLE lex

SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
Universe == SeqsUpTo(1..Syms, MaxLen)
ProbeSet == SeqsUpTo(0..(Syms+1), ProbeLen)
Probes == SetToSortSeq(ProbeSet, LexLt)

Init == lex = <<>>
Next == \E k \in Universe, v \in Vals :
          /\ (IF lex = <<>> THEN TRUE ELSE LexLt(lex[Len(lex)].k, k))
          /\ lex' = Append(lex, [k |-> k, v |-> v])

Positions_(L) == SetToSortSeq({<<>>} \cup PrefixesOf(L), LexLt)

Answers ==
  LET W == Whole(lex)
      ps == Positions_(lex)
  IN [lex |-> lex,
      find |-> [i \in 1..Len(Probes) |-> Find(lex, Probes[i])],
      matched |-> [i \in 1..Len(Probes) |-> Matched(lex, Probes[i])],
      rank |-> [i \in 1..Len(Probes) |-> NumberOf(W, Probes[i])],
      nodes |-> [i \in 1..Len(ps) |->
                   [p |-> ps[i],
                    labels |-> SetToSortSeq(Labels(lex, ps[i]), <),
                    val |-> Find(lex, ps[i]),
                    under |-> Below(lex, ps[i])]],
      sizes |-> Sizes(lex)]

EmitVector == Emit => PrintT("VEC" \o ToJson(Answers))
EmitHeader == Emit => PrintT("HDR" \o ToJson([probes |-> Probes]))
ASSUME EmitHeader

\* Consistency of the specification itself, in every lexicon.
SpecOK ==
  /\ LexiconOK(Whole(lex))
  /\ \A i \in 1..Len(lex) : NumberOf(Whole(lex), lex[i].k) = i - 1
  /\ \A p \in PrefixesOf(lex) : HasPrefix(lex, p)
  /\ Under(lex, <<>>) = lex
  /\ \A s \in ProbeSet : Matched(lex, s) = MatchedDef(lex, s)
  /\ \A p \in PrefixesOf(lex) :
       /\ CountUnder(lex, p) = Len(Below(lex, p))
       /\ CountUnder(lex, p) = (IF Has(lex, p) THEN 1 ELSE 0)
             + FoldSet(LAMBDA l, acc : CountUnder(lex, Append(p, l)) + acc, 0, Labels(lex, p))
       /\ FirstLabel(lex, p) = NextLabel(lex, p, 0)
       /\ lex # <<>> => BestUnder(lex, p) = Max({Below(lex, p)[i].v : i \in 1..Len(Below(lex, p))})
=============================================================================
