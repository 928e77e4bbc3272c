----------------------------- MODULE TraceStore -----------------------------
(* Judges recorded saving and loading: objects with contents (known by the   *)
(* digest of their bytes), reads from streams that may give out, writes to   *)
(* devices that may fail, and the answers objects give together.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, objs, ans
tvars == <<l, objs, ans>>

TraceInit == l = 1 /\ objs = <<>> /\ ans = <<>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Set(f, x, y) == (x :> y) @@ f

UnitBytes(kind) == CASE kind \in {"dict", "index"} -> 4
                     [] kind \in {"guide", "ranked"} -> 2

\* An object as seen from outside: its kind, its number of units, and its saved bytes.
Seen(e) == [kind |-> e.kind, n |-> e.n, dig |-> e.dig]
FileSize(o) == 4 + UnitBytes(o.kind) * o.n

\* What an object says about its sizes and what it writes must agree.
Sound(e) == /\ e.wrote = TRUE
            /\ e.total = UnitBytes(e.kind) * e.n
            /\ e.announced = FileSize(Seen(e))
            /\ e.len = FileSize(Seen(e))

TReset == Is("reset") /\ objs' = <<>> /\ ans' = <<>>
TObject == Is("object") /\ Sound(E) /\ objs' = Set(objs, E.o, Seen(E)) /\ UNCHANGED ans
\* A cleared guide holds nothing.
TEmptied == Is("emptied") /\ Sound(E) /\ E.n = 0 /\ objs' = Set(objs, E.o, Seen(E)) /\ UNCHANGED ans
TStill == Is("still") /\ Sound(E) /\ E.o \in DOMAIN objs /\ objs[E.o] = Seen(E) /\ UNCHANGED <<objs, ans>>

\* Reading the saved bytes of `from` into o, when the stream has E.avail bytes (of that part and beyond).
TRead ==
  /\ Is("read") /\ E.from \in DOMAIN objs
  /\ LET F == objs[E.from]
     IN /\ E.kind = F.kind
        /\ E.ok = (E.avail >= FileSize(F))
        /\ IF E.ok THEN E.used = FileSize(F) ELSE E.used <= E.avail
        /\ objs' = IF E.ok THEN Set(objs, E.o, F) ELSE objs
  /\ UNCHANGED ans

\* Writing o to a device; failed: the device has reported an error.
TWrite ==
  /\ Is("write") /\ E.o \in DOMAIN objs
  /\ E.ok = ~E.failed
  /\ E.ok => E.put = FileSize(objs[E.o]) /\ E.dig = objs[E.o].dig
  /\ UNCHANGED <<objs, ans>>

\* What objects with the same contents answer together to the same questions (E.asked) is the same.
TAnswers ==
  /\ Is("answers")
  /\ LET key == <<E.asked, [i \in 1..Len(E.parts) |-> objs[E.parts[i]]]>>
     IN IF key \in DOMAIN ans THEN ans[key] = E.dig /\ UNCHANGED ans
        ELSE ans' = Set(ans, key, E.dig)
  /\ UNCHANGED objs

\* What follows the parts in the stream is left there.
TRest == Is("rest") /\ E.found = E.left /\ UNCHANGED <<objs, ans>>

TraceNext == TReset \/ TObject \/ TEmptied \/ TStill \/ TRead \/ TWrite \/ TAnswers \/ TRest
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
