------------------------------ MODULE GenStore ------------------------------
(* Prints every behaviour of Store: how the stream was cut up and gave out,  *)
(* and which parts were loaded and how many bytes were taken.                *)
EXTENDS Store, Json
CONSTANT Emit
EmitStore ==
  (Emit /\ phase = "end") =>
    PrintT("VEC" \o ToJson([bounds |-> bounds, fault |-> fault, how |-> how, parts |-> Parts, head |-> HeadLen, body |-> Body,
                            loaded |-> [q \in 1..Parts |-> obj[q] = "new"], pos |-> pos]))
=============================================================================
