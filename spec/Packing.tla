------------------------------ MODULE Packing ------------------------------
(* Bit packed samples.                                                       *)
EXTENDS Bytes

Bit(s, i, msb) == LET b == s[1 + i \div 8] IN
  IF msb THEN (b \div Pow2(7 - (i % 8))) % 2 ELSE (b \div Pow2(i % 8)) % 2
(* the n bits of s at bit i *)
BitsMsb(s, i, n) == FoldLeft(LAMBDA a, k : 2 * a + Bit(s, i + k - 1, TRUE), 0, [k \in 1..n |-> k])
BitsLsb(s, i, n) == FoldLeft(LAMBDA a, k : 2 * a + Bit(s, i + n - k, FALSE), 0, [k \in 1..n |-> k])

(* an encoding: bits per sample, order of the bits, and whether 10 samples   *)
(* are followed by a byte of padding                                         *)
Enc(bpc, msb, pad) == [bpc |-> bpc, msb |-> msb, pad |-> pad]
RowLen(e, w) == IF e.pad THEN (w \div 10) * 16 ELSE (w * e.bpc + 7) \div 8
Encodable(e, w) == ~e.pad \/ w % 10 = 0
SampleAt(s, e, w, r, c) ==
  LET bit == (RowLen(e, w) * r) * 8 + (IF e.pad THEN (c \div 10) * 128 + (c % 10) * 12 ELSE c * e.bpc)
  IN IF e.msb THEN BitsMsb(s, bit, e.bpc) ELSE BitsLsb(s, bit, e.bpc)
(* the samples of a w by h image, row after row *)
Unpack(s, e, w, h) ==
  IF ~Encodable(e, w) \/ Len(s) < RowLen(e, w) * h THEN [ok |-> FALSE, v |-> <<>>]
  ELSE [ok |-> TRUE, v |-> [i \in 1..(w * h) |-> SampleAt(s, e, w, (i - 1) \div w, (i - 1) % w)]]
Words(s, le) == [i \in 1..(Len(s) \div 2) |-> IF le THEN s[2*i-1] + 256 * s[2*i] ELSE 256 * s[2*i-1] + s[2*i]]
=============================================================================
