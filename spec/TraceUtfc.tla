----------------------------- MODULE TraceUtfc -----------------------------
(* Judges recorded UTF-C calls.  Two views of the encoder:                   *)
(*  - the published scheme, Utfc!Encode (events enc, char): C16;              *)
(*  - an unknown function enc from strings to bytes of which each observation *)
(*    fixes a point, and which must be incremental and one-to-one (events     *)
(*    state, copy, clear, push, whole): C15.  It does not matter there which  *)
(*    bytes are used.                                                         *)
(* Round trips, zero bytes and use as keys (C13, C14) have events of their    *)
(* own.                                                                       *)
EXTENDS Utfc, Lexicon, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          enc,     \* string -> bytes, as far as observed
          hist,    \* encoder state object -> the string it was fed
          keys     \* strings in a dictionary of encodings: listing [k |-> code points, v |-> value]
vars == <<l, enc, hist, keys>>

Init == l = 1 /\ enc = (<<>> :> <<>>) /\ hist = <<>> /\ keys = <<>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Asks(op) == Is(op) /\ UNCHANGED <<enc, hist, keys>>
Put(f, x, y) == (x :> y) @@ f

TReset == Is("reset") /\ enc' = (<<>> :> <<>>) /\ hist' = <<>> /\ keys' = <<>>

(* the published bytes *)
TEnc  == Asks("enc") /\ E.b = Encode(E.cs)
\* one character after a string
TChar == Asks("char") /\ E.b = Emit1(StateAfter(St0, E.cs), E.c).b
\* one character in a known state, deep in a long text
TFrom == Asks("from") /\ E.b = Emit1(E.s, E.c).b
TStored == Asks("stored") /\ E.back = Decode(E.b)

(* round trip *)
TRound == Asks("round") /\ E.back = E.cs
NoZero(b) == \A i \in 1..Len(b) : b[i] \in 1..255
TBytes == Asks("nozero") /\ NoZero(E.b)
TPair  == Asks("pair") /\ (E.b1 = E.b2 => E.cs1 = E.cs2)

(* some incremental function *)
Agrees(s, b) == s \in DOMAIN enc => enc[s] = b
\* Incremental and one-to-one: prefixes of strings are encoded to prefixes, and only they.
PrefixOK(s, b) == \A t \in DOMAIN enc : /\ IsPrefix(s, t) <=> IsPrefix(b, enc[t])
                                        /\ IsPrefix(t, s) <=> IsPrefix(enc[t], b)
Fix(s, b) == Agrees(s, b) /\ PrefixOK(s, b) /\ enc' = Put(enc, s, b)

TState == Is("state") /\ hist' = Put(hist, E.id, <<>>) /\ UNCHANGED <<enc, keys>>
TClear == Is("clear") /\ hist' = Put(hist, E.id, <<>>) /\ UNCHANGED <<enc, keys>>
TCopy  == Is("copy") /\ E.src \in DOMAIN hist /\ hist' = Put(hist, E.dst, hist[E.src]) /\ UNCHANGED <<enc, keys>>
\* all bytes of a character taken
TPush  == /\ Is("push") /\ E.id \in DOMAIN hist
          /\ LET s == Append(hist[E.id], E.c)
             IN /\ E.r = TRUE
                /\ Fix(s, enc[hist[E.id]] \o E.b)
                /\ hist' = Put(hist, E.id, s)
          /\ UNCHANGED keys
TWhole == Is("whole") /\ Fix(E.cs, E.b) /\ UNCHANGED <<hist, keys>>
\* A follower that takes n bytes and refuses the next: it is handed the first n + 1 bytes of the encoding,
\* or all of them when there are no more than n.
TRefuse == /\ Asks("refuse") /\ E.cs \in DOMAIN enc
           /\ LET b == enc[E.cs]
              IN IF Len(b) <= E.n THEN E.r = TRUE /\ E.got = b
                 ELSE E.r = FALSE /\ E.got = SubSeq(b, 1, E.n + 1)
\* The same for one character fed to a state; the state is not to be used afterwards.
TRefuse1 == /\ Is("refuse1") /\ E.id \in DOMAIN hist
            /\ LET s == Append(hist[E.id], E.c)
               IN /\ s \in DOMAIN enc
                  /\ LET b == SubSeq(enc[s], Len(enc[hist[E.id]]) + 1, Len(enc[s]))
                     IN IF Len(b) <= E.n THEN E.r = TRUE /\ E.got = b
                        ELSE E.r = FALSE /\ E.got = SubSeq(b, 1, E.n + 1)
            /\ hist' = [i \in DOMAIN hist \ {E.id} |-> hist[i]]
            /\ UNCHANGED <<enc, keys>>

(* encodings as keys *)
TKeys == Is("keys") /\ Ascending([i \in 1..Len(E.L) |-> [k |-> E.L[i].k, v |-> 0]]) /\ keys' = E.L /\ UNCHANGED <<enc, hist>>
TAccept == Asks("accepted") /\ E.r = TRUE
TFind == Asks("find") /\ E.v = Find(keys, E.cs)
\* a complete listing of the keys below an encoding, decoded
TBelow == Asks("below") /\ LET U == Under(keys, E.cs)
                           IN /\ Len(E.got) = Len(U)
                              /\ {E.got[i] : i \in 1..Len(E.got)} = {U[i] : i \in 1..Len(U)}
TKept == Asks("kept") /\ E.before = E.after

Next == \/ TReset \/ TEnc \/ TChar \/ TFrom \/ TStored \/ TRound \/ TBytes \/ TPair
        \/ TState \/ TClear \/ TCopy \/ TPush \/ TWhole \/ TRefuse \/ TRefuse1
        \/ TKeys \/ TAccept \/ TFind \/ TBelow \/ TKept
Spec == Init /\ [][Next]_vars
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
