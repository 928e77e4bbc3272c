------------------------------- MODULE Utfc -------------------------------
(***************************************************************************)
(* The UTF-C scheme: a transducer from code points to bytes.  The encoder  *)
(* has a window (offs; large ones in long mode) and an auxiliary alphabet  *)
(* aux of 64 code points.  Bytes:                                          *)
(*   00..7F          a character of the current window                     *)
(*   80..9F xx       two bytes: a new (small) window                       *)
(*   A0..B0 xx xx    three bytes: a new large window (long mode)           *)
(*   B1..BA xx       two bytes: symbols, kana, variants, emoji             *)
(*   BB..BF          zero markers: one or two zero bytes stand where the   *)
(*                   marker says                                           *)
(*   C0..FF          a character of the auxiliary alphabet                 *)
(* Written from the description of the scheme; Encode is what every stored *)
(* encoding was made with and may not change.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxLatin == 767       \* 02FF: all these share the window 0
MinLong  == 9728      \* 2600: first code point of the long mode
InitAux  == 1040      \* 0410

MAux == 192  MShort == 128  MLong == 160  MExtra == 176
Z0 == 187  Z00 == 188  Z01 == 189  Z10 == 190  Z11 == 191

\* code points that stand for a scalar value
Scalar(c) == c \in 0..1114111 /\ ~(c \in 55296..57343)

AuxTable == (128 :> 192) @@ (896 :> 913) @@ (1024 :> 1040) @@ (1408 :> 1470) @@ (1328 :> 1329)
  @@ (1536 :> 1547) @@ (2304 :> 2317) @@ (2432 :> 2447) @@ (2560 :> 2562) @@ (2688 :> 2703)
  @@ (2816 :> 2831) @@ (2944 :> 2958) @@ (3200 :> 3214) @@ (3328 :> 3342) @@ (3456 :> 3483)
  @@ (3584 :> 3585) @@ (3712 :> 3713) @@ (3840 :> 3904) @@ (3968 :> 3984) @@ (4224 :> 4272)
  @@ (12288 :> 12352)
AuxOf(o) == IF o \in DOMAIN AuxTable THEN AuxTable[o] ELSE o

\* ranges [lo, hi) laid end to end
Latin == << <<65, 91>>, <<97, 123>>, <<48, 58>>, <<32, 33>>, <<45, 46>> >>
Extra == << <<8192, 9728>>, <<12288, 12544>>, <<65024, 65040>>, <<127744, 128496>> >>
Kana(c) == c \in 12288..12543

RECURSIVE InR(_, _)
InR(c, R) == IF R = <<>> THEN FALSE ELSE (R[1][1] <= c /\ c < R[1][2]) \/ InR(c, Tail(R))
RECURSIVE PosR(_, _)
PosR(c, R) == IF R[1][1] <= c /\ c < R[1][2] THEN c - R[1][1] ELSE R[1][2] - R[1][1] + PosR(c, Tail(R))
RECURSIVE AtR(_, _)
AtR(n, R) == IF R = <<>> THEN -1
             ELSE IF n < R[1][2] - R[1][1] THEN R[1][1] + n ELSE AtR(n - (R[1][2] - R[1][1]), Tail(R))

Small(c) == c - (c % 128)       \* window of 128
Large(c) == c - (c % 32768)     \* window of 32768

St(o, a, l) == [offs |-> o, aux |-> a, long |-> l]
St0 == St(0, InitAux, FALSE)

(* ------------------------------ encoding -------------------------------- *)
\* What one character gives: bytes and the next state.
Emit1(s, c) ==
  IF s.aux = 0 /\ InR(c, Latin) THEN [b |-> <<MAux + PosR(c, Latin)>>, s |-> s]
  ELSE IF s.aux # 0 /\ c >= s.aux /\ c <= s.aux + 63 THEN [b |-> <<MAux + (c - s.aux)>>, s |-> s]
  ELSE IF InR(c, Extra) THEN
    IF ~s.long /\ Small(c) = s.offs
    THEN [b |-> IF c % 128 = 0 THEN <<Z0>> ELSE <<c % 128>>, s |-> s]
    ELSE LET n  == PosR(c, Extra)
             hi == MExtra + 1 + (n \div 256)
         IN [b |-> IF n % 256 = 0 THEN <<Z10, hi>> ELSE <<hi, n % 256>>,
             s |-> IF Kana(c) THEN St(Small(c), AuxOf(s.offs), FALSE) ELSE s]
  ELSE IF c >= MinLong THEN
    LET n  == c - MinLong
        lo == n % 256
    IN IF s.long /\ Large(n) = s.offs
       THEN LET hi == (n \div 256) % 128
            IN [b |-> IF hi = 0 /\ lo = 0 THEN <<Z0>>
                      ELSE IF hi = 0 THEN <<Z00, lo>>
                      ELSE IF lo = 0 THEN <<Z10, hi>>
                      ELSE <<hi, lo>>, s |-> s]
       ELSE LET hi  == (n \div 256) % 256
                top == MLong + (n \div 65536)
            IN [b |-> IF hi = 0 /\ lo = 0 THEN <<Z11, top>>
                      ELSE IF hi = 0 THEN <<Z10, top, lo>>
                      ELSE IF lo = 0 THEN <<Z01, top, hi>>
                      ELSE <<top, hi, lo>>,
                s |-> St(Large(n), s.offs, TRUE)]
  ELSE
    IF ~s.long /\ Small(c) = s.offs
    THEN [b |-> IF c % 128 = 0 THEN <<Z0>> ELSE <<c % 128>>, s |-> s]
    ELSE LET lo == c % 256
             hi == MShort + (c \div 256)
         IN [b |-> IF lo = 0 THEN <<Z10, hi>> ELSE <<hi, lo>>,
             s |-> St(IF c <= MaxLatin THEN 0 ELSE Small(c), AuxOf(s.offs), FALSE)]

\* ... and a string, from a state: its bytes and the state after it.
Run(s, cs) == FoldLeft(LAMBDA acc, c : LET e == Emit1(acc.s, c) IN [b |-> acc.b \o e.b, s |-> e.s],
                       [b |-> <<>>, s |-> s], cs)
EncodeFrom(s, cs) == Run(s, cs).b
Encode(cs) == EncodeFrom(St0, cs)
StateAfter(s, cs) == Run(s, cs).s

(* ------------------------------ decoding -------------------------------- *)
\* Reads one character from the front of a non-empty byte sequence: the character, how many
\* bytes it took and the next state.  Get(b, i) is 0 where a marker says so.
Read1(s, b) ==
  LET z  == IF b[1] \in Z0..Z11 THEN b[1] ELSE 0
      m  == IF z = 0 THEN 0 ELSE 1            \* bytes before the head
      h  == IF z = Z0 \/ z = Z00 THEN 0 ELSE b[m+1]
      n  == IF z = Z0 \/ z = Z00 THEN m ELSE m + 1     \* bytes up to and with the head
      R(c, k, st) == [c |-> c, n |-> k, s |-> st]
  IN IF h >= MAux THEN R(IF s.aux = 0 THEN AtR(h - MAux, Latin) ELSE s.aux + (h - MAux), n, s)
     ELSE IF h > MExtra THEN
       LET lo == IF z = Z10 THEN 0 ELSE b[n+1]
           k  == IF z = Z10 THEN n ELSE n + 1
           c  == AtR((h - MExtra - 1) * 256 + lo, Extra)
       IN R(c, k, IF Kana(c) THEN St(Small(c), AuxOf(s.offs), FALSE) ELSE s)
     ELSE IF h >= MLong THEN
       LET zh == z = Z10 \/ z = Z11
           zl == z = Z01 \/ z = Z11
           hi == IF zh THEN 0 ELSE b[n+1]
           k1 == IF zh THEN n ELSE n + 1
           lo == IF zl THEN 0 ELSE b[k1+1]
           k  == IF zl THEN k1 ELSE k1 + 1
           v  == (h - MLong) * 65536 + hi * 256 + lo
       IN R(MinLong + v, k, St(Large(v), s.offs, TRUE))
     ELSE IF h >= MShort THEN
       LET lo == IF z = Z10 THEN 0 ELSE b[n+1]
           k  == IF z = Z10 THEN n ELSE n + 1
           c  == (h - MShort) * 256 + lo
       IN R(c, k, St(IF c <= MaxLatin THEN 0 ELSE Small(c), AuxOf(s.offs), FALSE))
     ELSE IF s.long THEN
       LET none == z = Z10 \/ z = Z0
           lo == IF none THEN 0 ELSE b[n+1]
       IN R(MinLong + s.offs + h * 256 + lo, IF none THEN n ELSE n + 1, s)
     ELSE R(s.offs + h, n, s)

RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, b) == IF b = <<>> THEN <<>>
                    ELSE LET r == Read1(s, b) IN <<r.c>> \o DecodeFrom(r.s, SubSeq(b, r.n + 1, Len(b)))
Decode(b) == DecodeFrom(St0, b)

(* ----------------------------- correctness ------------------------------ *)
\* In state s, character c: no zero byte, and the decoder in the same state reads back exactly c, takes
\* exactly these bytes (whatever follows) and ends in the same state.  By induction over a string this is
\* the round trip, and that encodings are prefix-related only if the strings are.
CharOK(s, c) ==
  LET e == Emit1(s, c)
      r == Read1(s, e.b)
  IN /\ \A i \in 1..Len(e.b) : e.b[i] \in 1..255
     /\ Len(e.b) \in 1..3
     /\ r.c = c /\ r.n = Len(e.b) /\ r.s = e.s
=============================================================================
