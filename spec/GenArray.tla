------------------------------ MODULE GenArray ------------------------------
(* The arrays DoubleArray arrives at in the real geometry (blocks of 256 units, 16 of them open, offsets  *)
(* of 21 bits), printed for comparison with the arrays the code saves: how faithful that model is.        *)
(* Not part of any property: a different arrangement of the units is as good.                             *)
EXTENDS DoubleArray, Json
CONSTANT Emit
Shown(i) == <<IF units[i].leaf THEN 1 ELSE 0, units[i].label, IF units[i].ends THEN 1 ELSE 0, units[i].off, units[i].val>>
EmitArray == (Emit /\ phase = "done") => PrintT("VEC" \o ToJson([lex |-> lex, units |-> [j \in 1..N |-> Shown(j-1)], unused |-> unused]))
=============================================================================
