---------------------------- MODULE DawgSystem ----------------------------
(***************************************************************************)
(* The library as its users see it: builders that take keys in order,      *)
(* automata they are finished into, dictionaries built from those, and     *)
(* cursors (completers) walking dictionaries.  One action per public call  *)
(* that changes something; queries change nothing and are judged by the    *)
(* operators of Lexicon in the state they are asked in.                    *)
(*                                                                         *)
(* Objects are created by the calls that first mention them, so every      *)
(* variable is a function from the identifiers in use.                     *)
(***************************************************************************)
EXTENDS Lexicon

VARIABLES builders,   \* id -> listing accepted since the builder was new or finished
          autos,      \* id -> listing of a finished automaton
          dicts,      \* id -> lexicon of a dictionary (and of its guides and indices)
          cursors     \* id -> [kind, text, left, last]: a completer's listing under way

sysvars == <<builders, autos, dicts, cursors>>

SysInit == /\ builders = <<>> /\ autos = <<>> /\ dicts = <<>> /\ cursors = <<>>

Set(f, x, y) == (x :> y) @@ f

(* ------------------------------ building -------------------------------- *)

NewBuilder(b) ==
  /\ builders' = Set(builders, b, <<>>)
  /\ UNCHANGED <<autos, dicts, cursors>>

\* r is the result of the call.
Insert(b, k, v, r) ==
  /\ b \in DOMAIN builders
  /\ r = Accepts(builders[b], k, v)
  /\ builders' = IF r THEN [builders EXCEPT ![b] = Inserted(@, k, v)] ELSE builders
  /\ UNCHANGED <<autos, dicts, cursors>>

NewAuto(a) ==
  /\ autos' = Set(autos, a, <<>>)
  /\ UNCHANGED <<builders, dicts, cursors>>

\* Everything goes to the automaton; the builder is as new.
Finish(b, a) ==
  /\ b \in DOMAIN builders
  /\ autos' = Set(autos, a, builders[b])
  /\ builders' = [builders EXCEPT ![b] = <<>>]
  /\ UNCHANGED <<dicts, cursors>>

ClearAuto(a) ==
  /\ a \in DOMAIN autos
  /\ autos' = [autos EXCEPT ![a] = <<>>]
  /\ UNCHANGED <<builders, dicts, cursors>>

Build(a, d) ==
  /\ a \in DOMAIN autos
  /\ dicts' = Set(dicts, d, Whole(autos[a]))
  /\ UNCHANGED <<builders, autos, cursors>>

\* Reading a saved dictionary into d: all of it is there (ok), or nothing happens.
Load(d, W, ok) ==
  /\ dicts' = IF ok THEN Set(dicts, d, W) ELSE dicts
  /\ UNCHANGED <<builders, autos, cursors>>

(* ----------------------------- completion ------------------------------- *)

\* A cursor is started at a position p of d; text is what its keys begin with.
Start(c, d, p, text, kind) ==
  /\ d \in DOMAIN dicts
  /\ IsPosition(dicts[d].win, p)
  /\ cursors' = Set(cursors, c, [kind |-> kind, text |-> text, left |-> Below(dicts[d].win, p)])
  /\ UNCHANGED <<builders, autos, dicts>>

\* Which of the keys left may come next.
MayReturn(cu, i) ==
  /\ i \in 1..Len(cu.left)
  /\ cu.kind = "ascending" => i = 1
  /\ cu.kind = "ranked"    => \A j \in 1..Len(cu.left) : cu.left[j].v <= cu.left[i].v
  \* kind "any": a ranked guide with an order of the caller's

Return(c, i) ==     \* next returns true: the i-th of the keys left
  /\ c \in DOMAIN cursors
  /\ MayReturn(cursors[c], i)
  /\ cursors' = [cursors EXCEPT ![c].left = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
  /\ UNCHANGED <<builders, autos, dicts>>

End(c) ==           \* next returns false
  /\ c \in DOMAIN cursors
  /\ cursors[c].left = <<>>
  /\ UNCHANGED sysvars

(* ------------------------------ queries --------------------------------- *)

Query == UNCHANGED sysvars

(* ----------------------------- invariants ------------------------------- *)

Ordered == \A b \in DOMAIN builders : Ascending(builders[b])
AutosOK == \A a \in DOMAIN autos : LexiconOK(Whole(autos[a]))
DictsOK == \A d \in DOMAIN dicts : LexiconOK(dicts[d])
SysOK == Ordered /\ AutosOK /\ DictsOK
=============================================================================
