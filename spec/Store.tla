------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Loading parts (dictionary, guide, ranked guide, index) one after        *)
(* another from a stream, in small steps.  The stream delivers the bytes   *)
(* in pieces of any size and gives out at any byte.  A part is a header    *)
(* of HeadLen bytes (the count) and Body bytes of units.                      *)
(*                                                                         *)
(* What the steps amount to is Load of DawgSystem: a part is replaced as a *)
(* whole when all its bytes came, and otherwise keeps what it held.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS HeadLen, Body, Parts, Faults

Size == HeadLen + Body
Total == Parts * Size

VARIABLES bounds,   \* positions where a delivery ends, at the latest
          fault,    \* the stream gives out after this many bytes
          how,      \* and how it says so
          pos,      \* bytes taken from the stream
          part,     \* the part being read
          phase,    \* "head", "body" or "end"
          need,     \* bytes still to come in this phase
          obj       \* part -> "old" or "new"

svars == <<bounds, fault, how, pos, part, phase, need, obj>>

StoreInit ==
  /\ bounds \in SUBSET (1..(Total-1))
  /\ fault \in 0..Total
  /\ how \in Faults
  /\ pos = 0 /\ part = 1 /\ phase = "head" /\ need = HeadLen
  /\ obj = [q \in 1..Parts |-> "old"]

Edge == Min({b \in bounds : b > pos} \cup {fault, Total})

\* The device hands over some of what is asked for, never beyond a bound.
Deliver ==
  /\ phase # "end" /\ need > 0 /\ pos < fault
  /\ LET most == IF Edge - pos < need THEN Edge - pos ELSE need
     IN pos' = pos + most /\ need' = need - most
  /\ UNCHANGED <<bounds, fault, how, part, phase, obj>>

GiveOut ==
  /\ phase # "end" /\ need > 0 /\ pos = fault
  /\ phase' = "end"
  /\ UNCHANGED <<bounds, fault, how, pos, part, need, obj>>

Counted ==
  /\ phase = "head" /\ need = 0
  /\ phase' = "body" /\ need' = Body
  /\ UNCHANGED <<bounds, fault, how, pos, part, obj>>

Complete ==
  /\ phase = "body" /\ need = 0
  /\ obj' = [obj EXCEPT ![part] = "new"]
  /\ IF part = Parts THEN phase' = "end" /\ UNCHANGED <<part, need>>
     ELSE phase' = "head" /\ part' = part + 1 /\ need' = HeadLen
  /\ UNCHANGED <<bounds, fault, how, pos>>

StoreNext == Deliver \/ GiveOut \/ Counted \/ Complete
StoreSpec == StoreInit /\ [][StoreNext]_svars /\ WF_svars(StoreNext)

(* ------------------------------ properties ------------------------------ *)
\* Whole parts only, and never a byte of the next one.
Exact == /\ \A q \in 1..Parts : obj[q] = "new" => fault >= q * Size
         /\ pos <= part * Size
         /\ phase = "end" => \A q \in 1..Parts : obj[q] = "new" <=> fault >= q * Size
AtOnce == [][obj' # obj => pos = part * Size]_svars
Ends == <>(phase = "end")
=============================================================================
