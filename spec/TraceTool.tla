----------------------------- MODULE TraceTool -----------------------------
(* Judges recorded runs of the dawgtool program.                             *)
EXTENDS Tool, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disk      \* what the dictionary file holds: [ok, L], and the options it was built with
tvars == <<l, disk>>
Empty == [ok |-> FALSE, L |-> <<>>, o |-> <<>>]
TraceInit == l = 1 /\ disk = Empty
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1

TReset == Is("reset") /\ disk' = Empty
\* A run with -b.  E.unreadable: some input could not be read, or the output not be written.
TBuild ==
  /\ Is("build")
  /\ LET B == Built(E.o, E.lines)
         ok == B.ok /\ ~E.unreadable
     IN /\ (E.status = 0) = ok
        /\ disk' = IF ok THEN [ok |-> TRUE, L |-> B.L, o |-> E.o] ELSE Empty
\* A lexicon known by the neighbourhood of the queries only.
TBuiltLarge == Is("large") /\ E.status = 0 /\ disk' = [ok |-> TRUE, L |-> E.L, o |-> E.o]
\* A line too long for the program: it may refuse, but not pass over it.
TBuildLong ==
  /\ Is("buildlong")
  /\ disk' = IF E.status = 0 THEN [ok |-> TRUE, L |-> Built(E.o, E.lines).L, o |-> E.o] ELSE Empty
  /\ E.status = 0 => Built(E.o, E.lines).ok

\* A run with queries, E.out: one record for each.
TQuery ==
  /\ Is("query")
  /\ IF ~disk.ok \/ E.unreadable THEN E.status # 0
     ELSE /\ E.o = disk.o
          /\ E.status = 0
          /\ Len(E.out) = Len(E.q)
          /\ \A i \in 1..Len(E.q) :
               /\ E.out[i].k = E.q[i].k
               /\ AnswerOK(E.o, disk.L, E.q[i].k, E.out[i].list)
               /\ HasIndex(E.o) => NumberOK(E.o, disk.L, E.q[i].k, E.out[i].n, E.names)
          /\ HasIndex(E.o) => E.total = Len(disk.L) /\ NamesOK(E.o, disk.L, E.names)
  /\ UNCHANGED disk

\* A query too long for the program: the run fails or the answers are right.
TQueryLong == Is("querylong") /\ (IF E.status # 0 THEN TRUE ELSE E.right) /\ UNCHANGED disk

TraceNext == TQueryLong \/ TReset \/ TBuild \/ TBuiltLarge \/ TBuildLong \/ TQuery
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted ==
  IF TLCGet("stats").diameter - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
  ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
