------------------------------ MODULE Cursors ------------------------------
(***************************************************************************)
(* How the two completers walk a dictionary, as machines: the plain one    *)
(* keeps a stack of units and the path to the last, and steps along the    *)
(* guide's first-child and next-sibling labels; the ranked one keeps a     *)
(* tree of nodes, a queue of nodes whose siblings are due, and candidates  *)
(* with the highest value first.  Each call of Next is one step; the step  *)
(* is run beside the cursor of DawgSystem, and `agrees` says that what the *)
(* machine returned is something that cursor may return.                   *)
(*                                                                         *)
(* A unit of the array is [up, l, s]: the state it hangs off, its label,   *)
(* and its own state (states being residual listings as in Lexicon); the   *)
(* leaf that carries a value is the unit with label 0, s = <<>>.  That     *)
(* finished arrays are like this is what DoubleArray checks.               *)
(***************************************************************************)
EXTENDS DawgSystem

CONSTANTS Syms, MaxLen, MaxKeys, Vals, Starts

VARIABLES lex,     \* the dictionary's listing
          how,     \* "ascending" (plain), "ranked", or "any" (ranked, guide in the reverse order)
          m,       \* the machine's own state
          starts,  \* how often it was started
          agrees   \* the machine's answers so far were allowed
cvars == <<lex, how, m, starts, agrees, sysvars>>

Universe == UNION {[1..n -> 1..Syms] : n \in 0..MaxLen}

(* -------------------------- dictionary and guide ------------------------ *)
RootOf(L) == [up |-> <<>>, l |-> 0, s |-> L]
Ends(u) == Has(u.s, <<>>)
Child(u, b) == [up |-> u.s, l |-> b, s |-> IF b = 0 THEN <<>> ELSE Below(u.s, <<b>>)]
RECURSIVE UnitAt(_, _)
UnitAt(u, p) == IF p = <<>> THEN u ELSE UnitAt(Child(u, p[1]), Tail(p))

\* The labels of a state in the order of the guide.
Best(S, b) == IF b = 0 THEN Find(S, <<>>) ELSE BestUnder(S, <<b>>)
Least(S, b) == IF b = 0 THEN Find(S, <<>>)
               ELSE Min({S[i].v : i \in {j \in 1..Len(S) : IsPrefix(<<b>>, S[j].k)}})
Chain(S) ==
  LET real == Labels(S, <<>>)
      all == real \cup (IF Has(S, <<>>) THEN {0} ELSE {})
  IN CASE how = "ascending" -> SetToSortSeq(real, <)
       [] how = "ranked" -> SetToSortSeq(all, LAMBDA a, b : Best(S, a) > Best(S, b) \/ (Best(S, a) = Best(S, b) /\ a < b))
       [] how = "any" -> SetToSortSeq(all, LAMBDA a, b : Least(S, a) < Least(S, b) \/ (Least(S, a) = Least(S, b) /\ a < b))
GChild(u) == LET c == Chain(u.s) IN IF c = <<>> THEN 0 ELSE c[1]
GSibling(u) ==
  LET c == Chain(u.up)
      i == CHOOSE i \in 1..Len(c) : c[i] = u.l
  IN IF \E j \in 1..Len(c) : c[j] = u.l THEN (IF i < Len(c) THEN c[i+1] ELSE 0) ELSE 0

(* --------------------------- the plain completer ------------------------ *)
\* [path, stack, started, ok]: ok is the result of the last Next.
RECURSIVE ToTerminal(_)
ToTerminal(c) ==
  LET u == c.stack[Len(c.stack)]
  IN IF Ends(u) THEN [c EXCEPT !.started = TRUE, !.ok = TRUE]
     ELSE LET b == GChild(u)
          IN IF b = 0 THEN [c EXCEPT !.ok = FALSE]
             ELSE ToTerminal([c EXCEPT !.path = Append(@, b), !.stack = Append(@, Child(u, b))])
RECURSIVE Back(_)
Back(c) ==    \* up, until there is a sibling to go to
  LET u == c.stack[Len(c.stack)]
      b == GSibling(u)
      d == [c EXCEPT !.stack = SubSeq(@, 1, Len(@)-1), !.path = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@)-1)]
  IN IF d.stack = <<>> THEN [d EXCEPT !.ok = FALSE]
     ELSE IF b # 0
     THEN ToTerminal([d EXCEPT !.path = Append(@, b), !.stack = Append(@, Child(d.stack[Len(d.stack)], b))])
     ELSE Back(d)
PlainStart(u, text) == [path |-> text, stack |-> IF lex = <<>> THEN <<>> ELSE <<u>>, started |-> FALSE, ok |-> FALSE]
PlainNext(c) ==
  IF c.stack = <<>> THEN [c EXCEPT !.ok = FALSE]
  ELSE IF ~c.started THEN ToTerminal(c)
  ELSE LET u == c.stack[Len(c.stack)]
           b == GChild(u)
       IN IF b = 0 THEN Back(c)
          ELSE ToTerminal([c EXCEPT !.path = Append(@, b), !.stack = Append(@, Child(u, b))])
PlainKey(c) == c.path
PlainValue(c) == Find(c.stack[Len(c.stack)].s, <<>>)

(* --------------------------- the ranked completer ----------------------- *)
\* [text, path, value, nodes, queue, cands, ok]; the first node has index 1 and is its own parent,
\* its label is not 0.
Node(u, prev, label) == [u |-> u, prev |-> prev, l |-> label, queued |-> FALSE,
                         terminal |-> label # 0 /\ Ends(u)]
RankedStart(u, text) ==
  [text |-> text, path |-> text, value |-> -1, cands |-> {}, ok |-> FALSE,
   nodes |-> IF lex = <<>> THEN <<>> ELSE <<[Node(u, 1, 255) EXCEPT !.queued = TRUE]>>,
   queue |-> IF lex = <<>> THEN <<>> ELSE <<1>>]
RECURSIVE Down(_, _)
Down(r, n) ==     \* to the best leaf under node n, which becomes a candidate
  IF r.nodes[n].l = 0
  THEN [r EXCEPT !.cands = @ \cup {[n |-> n, v |-> Find(r.nodes[n].u.up, <<>>)]}]
  ELSE LET u == r.nodes[n].u
           b == GChild(u)
           q == IF b = 0 THEN [r EXCEPT !.nodes[n].terminal = FALSE] ELSE r
       IN Down([q EXCEPT !.nodes = Append(@, Node(Child(u, b), n, b))], Len(q.nodes) + 1)
Aside(r, n) ==    \* the next sibling of node n, if there is one
  LET p == r.nodes[n].prev
      b == GSibling(r.nodes[n].u)
      q == IF b = 0 THEN [r EXCEPT !.nodes[p].terminal = FALSE] ELSE r
  IN IF b = 0 /\ ~r.nodes[p].terminal THEN r
     ELSE Down([q EXCEPT !.nodes = Append(@, Node(Child(r.nodes[p].u, b), p, b))], Len(q.nodes) + 1)
RECURSIVE Work(_, _)
Work(r, queue) ==
  IF queue = <<>> THEN [r EXCEPT !.queue = <<>>]
  ELSE Work(IF r.value # -1 THEN Aside(r, queue[1]) ELSE Down(r, queue[1]), Tail(queue))
Due(r, n) == IF r.nodes[n].queued THEN r ELSE [r EXCEPT !.queue = Append(@, n), !.nodes[n].queued = TRUE]
RECURSIVE Climb(_, _, _)
Climb(r, n, suffix) == IF n = 1 THEN [r EXCEPT !.path = r.text \o suffix]
                       ELSE Climb(Due(r, n), r.nodes[n].prev, <<r.nodes[n].l>> \o suffix)
RankedNext(r) ==
  LET w == Work(r, r.queue)
  IN IF w.cands = {} THEN [w EXCEPT !.ok = FALSE]
     ELSE LET c == CHOOSE c \in w.cands : \A d \in w.cands : d.v < c.v \/ (d.v = c.v /\ d.n <= c.n)
              x == Due(w, c.n)
              y == Climb(x, x.nodes[c.n].prev, <<>>)
          IN [y EXCEPT !.value = c.v, !.cands = @ \ {c}, !.ok = TRUE]

(* ------------------------------- behaviours ----------------------------- *)
Nothing == [ok |-> FALSE]
CInit == /\ lex = <<>> /\ m = Nothing /\ starts = 0 /\ agrees = TRUE
         /\ how \in {"ascending", "ranked", "any"}
         /\ builders = <<>> /\ autos = <<>> /\ dicts = <<>> /\ cursors = <<>>

Add == /\ starts = 0 /\ Len(lex) < MaxKeys
       /\ \E k \in Universe, v \in Vals :
            /\ (IF lex = <<>> THEN TRUE ELSE LexLt(lex[Len(lex)].k, k))
            /\ lex' = Append(lex, [k |-> k, v |-> v])
       /\ UNCHANGED <<how, m, starts, agrees, sysvars>>
Made == /\ dicts = <<>>
        /\ dicts' = (1 :> Whole(lex))
        /\ starts' = 1
        /\ UNCHANGED <<lex, how, m, agrees, builders, autos, cursors>>

\* Started anywhere, at any time, with a text of the caller's to begin the keys with.
MStart == /\ dicts # <<>> /\ starts <= Starts
          /\ \E p \in {<<>>} \cup PrefixesOf(lex), text \in {<<>>, <<7, 7>>} :
               LET u == UnitAt(RootOf(lex), p)
               IN /\ m' = IF how = "ascending" THEN PlainStart(u, text) ELSE RankedStart(u, text)
                  /\ Start(1, 1, p, text, how)
          /\ starts' = starts + 1
          /\ UNCHANGED <<lex, how, agrees>>

MKey(x) == IF how = "ascending" THEN PlainKey(x) ELSE x.path
MValue(x) == IF how = "ascending" THEN PlainValue(x) ELSE x.value
MNext == /\ cursors # <<>>
         /\ m' = IF how = "ascending" THEN PlainNext(m) ELSE RankedNext(m)
         /\ LET cu == cursors[1]
                is == {i \in 1..Len(cu.left) : MayReturn(cu, i) /\ cu.text \o cu.left[i].k = MKey(m') /\ cu.left[i].v = MValue(m')}
            IN IF ~m'.ok THEN agrees' = (agrees /\ cu.left = <<>>) /\ UNCHANGED sysvars
               ELSE IF is = {} THEN agrees' = FALSE /\ UNCHANGED sysvars
               ELSE agrees' = agrees /\ Return(1, CHOOSE i \in is : TRUE)
         /\ UNCHANGED <<lex, how, starts>>
CNext == Add \/ Made \/ MStart \/ MNext
CSpec == CInit /\ [][CNext]_cvars

(* ------------------------------- properties ----------------------------- *)
Agrees == agrees
\* The plain completer: the path leads along the stack.
PlainOK == (how = "ascending" /\ cursors # <<>> /\ m.stack # <<>>) =>
   /\ Len(m.path) = Len(cursors[1].text) + Len(m.stack) - 1
   /\ \A i \in 2..Len(m.stack) : m.stack[i] = Child(m.stack[i-1], m.path[Len(cursors[1].text) + i - 1])
\* The ranked one: nothing is due twice, and a key left is under a candidate, or a later sibling of a node due.
RECURSIVE TextOf(_, _)
TextOf(r, n) == IF n = 1 THEN <<>> ELSE TextOf(r, r.nodes[n].prev) \o (IF r.nodes[n].l = 0 THEN <<>> ELSE <<r.nodes[n].l>>)
RankedOK == (how # "ascending" /\ cursors # <<>>) =>
   /\ \A i, j \in 1..Len(m.queue) : m.queue[i] = m.queue[j] => i = j
   /\ \A c \in m.cands : m.nodes[c.n].l = 0
   /\ \A c, d \in m.cands : TextOf(m, c.n) = TextOf(m, d.n) => c = d
   /\ \A c \in m.cands : \E i \in 1..Len(cursors[1].left) : cursors[1].left[i] = [k |-> TextOf(m, c.n), v |-> c.v]
   /\ \A i, j \in 1..Len(m.nodes) :
        (m.nodes[i].prev = m.nodes[j].prev /\ m.nodes[i].l = m.nodes[j].l /\ i # 1 /\ j # 1) => i = j
\* Nothing of the dictionary changes under a cursor.
Unharmed == [][dicts # <<>> => dicts' = dicts]_cvars
=============================================================================
