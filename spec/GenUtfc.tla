------------------------------ MODULE GenUtfc ------------------------------
(* All states the encoder can reach (via every window), each with a shortest *)
(* string that leads there.  In every state the characters at every edge of   *)
(* the scheme are checked for CharOK (decoder and encoder agree, no zeros),   *)
(* and the encodings of some are printed for replay.                          *)
EXTENDS Utfc, Json
CONSTANTS Emit, Every     \* every how many-th edge character is printed
VARIABLES st, path

\* a character that moves to each window, from any state that is not there
SmallWindows == {65} \cup {w * 128 + 1 : w \in 6..63} \cup {12289, 12417}
LongWindows  == {MinLong + w * 32768 + 30000 : w \in 0..33}
Movers == {c \in SmallWindows \cup LongWindows : Scalar(c)}

Around(S) == UNION {{x - 1, x, x + 1} : x \in S}
FixedEdges == Around({1, 32, 45, 48, 58, 65, 91, 97, 123, 128, 192, 256, 512, 767, 768, 1023, 1024, 1040, 1104, 4095, 4096,
                8191, 8192, 8447, 8448, 9727, 9728, 9983, 9984, 10240, 12287, 12288, 12351, 12352, 12415, 12416, 12543, 12544,
                32767, 32768, 42495, 42496, 55295, 57344, 65023, 65024, 65039, 65040, 65535, 65536, 75264,
                127743, 127744, 128000, 128255, 128256, 128495, 128496, 1114111})
Edges == {c \in FixedEdges
              \cup Around({st.aux, st.aux + 63, st.aux + 64, st.offs, st.offs + 64, st.offs + 127, st.offs + 128})
              \cup (IF st.long THEN Around({MinLong + st.offs, MinLong + st.offs + 255, MinLong + st.offs + 256, MinLong + st.offs + 512,
                                            MinLong + st.offs + 32767, MinLong + st.offs + 32768}) ELSE {})
              : Scalar(c)}

Init == st = St0 /\ path = <<>>
Next == \E c \in Movers : st' = Emit1(st, c).s /\ path' = Append(path, c)
View == st

AllCharsOK == \A c \in Edges : CharOK(st, c)

Chosen == {c \in Edges : (c + st.offs + st.aux) % Every = 0}
EmitState == Emit => PrintT("VEC" \o ToJson([path |-> path, aux |-> st.aux, offs |-> st.offs, long |-> st.long,
               enc |-> SetToSeq({[c |-> c, b |-> Emit1(st, c).b] : c \in Chosen})]))
=============================================================================
