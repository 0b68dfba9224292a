-------------------------------- MODULE Crw --------------------------------
(* Canon CRW compressed raw data: blocks of 64 coefficients, coded with one  *)
(* table for the first of a block and one for the others; and optionally a   *)
(* plane of the two low bits of every sample before that.                    *)
EXTENDS Ciff, Ljpeg, Sensor

(* the codes, as in ITU T.81 annex C: how many of each length, and the values *)
FirstTrees ==
  <<[bits |-> <<0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<4, 3, 5, 6, 2, 7, 1, 8, 9, 0, 10, 11, 255>>],
    [bits |-> <<0, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<3, 2, 4, 1, 5, 0, 6, 7, 9, 8, 10, 11, 255>>],
    [bits |-> <<0, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>,
     vals |-> <<6, 5, 7, 4, 8, 3, 9, 2, 0, 10, 1, 11, 255>>]>>
SecondTrees ==
  <<[bits |-> <<0, 2, 2, 2, 1, 4, 2, 1, 2, 5, 1, 1, 0, 0, 0, 139>>,
     vals |-> <<3, 4, 2, 5, 1, 6, 7, 8, 18, 19, 17, 20, 9, 21, 34, 0, 33, 22, 10, 240, 35, 23, 36, 49, 50, 24, 
       25, 51, 37, 65, 52, 66, 53, 81, 54, 55, 56, 41, 121, 38, 26, 57, 86, 87, 40, 39, 82, 85, 88, 67, 
       118, 89, 119, 84, 97, 249, 113, 120, 117, 150, 151, 73, 183, 83, 215, 116, 182, 152, 71, 72, 
       149, 105, 153, 145, 250, 184, 104, 181, 185, 214, 247, 216, 103, 70, 69, 148, 137, 248, 129, 
       213, 246, 180, 136, 177, 42, 68, 114, 217, 135, 102, 212, 245, 58, 167, 115, 169, 168, 134, 98, 
       199, 101, 200, 201, 161, 244, 209, 233, 90, 146, 133, 166, 231, 147, 232, 193, 198, 122, 100, 
       225, 74, 106, 230, 179, 241, 211, 165, 138, 178, 154, 186, 132, 164, 99, 229, 197, 243, 210, 
       196, 130, 170, 218, 228, 242, 202, 131, 163, 162, 195, 234, 194, 226, 227>>],
    [bits |-> <<0, 2, 2, 1, 4, 1, 4, 1, 3, 3, 1, 0, 0, 0, 0, 140>>,
     vals |-> <<2, 3, 1, 4, 5, 18, 17, 6, 19, 7, 8, 20, 34, 9, 33, 0, 35, 21, 49, 50, 10, 22, 240, 36, 51, 65, 
       66, 25, 23, 37, 24, 81, 52, 67, 82, 41, 53, 97, 57, 113, 98, 54, 83, 38, 56, 26, 55, 129, 39, 
       145, 121, 85, 69, 40, 114, 89, 161, 177, 68, 105, 84, 88, 209, 250, 87, 225, 241, 185, 73, 71, 
       99, 106, 249, 86, 70, 168, 42, 74, 120, 153, 58, 117, 116, 134, 101, 193, 118, 182, 150, 214, 
       137, 133, 201, 245, 149, 180, 199, 247, 138, 151, 184, 115, 183, 216, 217, 135, 167, 122, 72, 
       130, 132, 234, 244, 166, 197, 90, 148, 164, 198, 146, 195, 104, 181, 200, 228, 229, 230, 233, 
       162, 163, 227, 194, 102, 103, 147, 170, 212, 213, 231, 248, 136, 154, 215, 119, 196, 100, 226, 
       152, 165, 202, 218, 232, 243, 246, 169, 178, 179, 242, 210, 131, 186, 211>>],
    [bits |-> <<0, 0, 6, 2, 1, 3, 3, 2, 5, 1, 2, 2, 8, 10, 0, 117>>,
     vals |-> <<4, 5, 3, 6, 2, 7, 1, 8, 9, 18, 19, 20, 17, 21, 10, 22, 23, 240, 0, 34, 33, 24, 35, 25, 36, 50, 
       49, 37, 51, 56, 55, 52, 53, 54, 57, 121, 87, 88, 89, 40, 86, 120, 39, 65, 41, 119, 38, 66, 118, 
       153, 26, 85, 152, 151, 249, 72, 84, 150, 137, 71, 183, 73, 250, 117, 104, 182, 103, 105, 185, 
       184, 216, 82, 215, 136, 181, 116, 81, 70, 217, 248, 58, 214, 135, 69, 122, 149, 213, 246, 134, 
       180, 169, 148, 83, 42, 168, 67, 245, 247, 212, 102, 167, 90, 68, 138, 201, 232, 200, 231, 154, 
       106, 115, 74, 97, 199, 244, 198, 101, 233, 114, 230, 113, 145, 147, 166, 218, 146, 133, 98, 243, 
       197, 178, 164, 132, 186, 100, 165, 179, 210, 129, 229, 211, 170, 196, 202, 242, 177, 228, 209, 
       131, 99, 234, 195, 226, 130, 241, 163, 194, 161, 193, 227, 162, 225>>]>>
FirstCodes == [t \in 1..3 |-> Codes(FirstTrees[t])]
SecondCodes == [t \in 1..3 |-> Codes(SecondTrees[t])]

(* Does the data at p start with low bits: compressed data has no FF but     *)
(* before a zero, and has some                                               *)
HasLowBits(w, p) ==
  LET n == Min2(16384 - 26, WLen(w) - p)
      ffs == {i \in 514..(n - 2) : B(w, p + i) = 255}
  IN ffs = {} \/ \E i \in ffs : B(w, p + i + 1) # 0
(* the bits: the byte after each FF is not part of them *)
Unstuffed(s) ==
  FoldLeft(LAMBDA a, c : IF a.ff THEN [a EXCEPT !.ff = FALSE] ELSE [v |-> Append(a.v, c), ff |-> c = 255],
           [v |-> <<>>, ff |-> FALSE], s).v

Zero64 == [i \in 1..64 |-> 0]
(* a block at bit p: [ok, p, d: its 64 differences] *)
RECURSIVE Block(_, _, _, _, _)
Block(b, p, t, i, d) ==
  IF i >= 64 THEN [ok |-> TRUE, p |-> p, d |-> d]
  ELSE LET s == IF i = 0 THEN Sym(b, p, FirstTrees[t], FirstCodes[t], 1, 0) ELSE Sym(b, p, SecondTrees[t], SecondCodes[t], 1, 0)
           at == i + (s.v \div 16)
           len == s.v % 16
           x == BitsAt(b, s.p, len)
           v == IF x < Pow2(len - 1) THEN x + 1 - Pow2(len) ELSE x
       IN IF ~s.ok THEN [ok |-> FALSE, p |-> p, d |-> d, any |-> p + 16 <= 8 * Len(b)] \* not a code, or the end
          ELSE IF s.v = 0 /\ i # 0 THEN [ok |-> TRUE, p |-> s.p, d |-> d]
          ELSE IF s.v = 255 THEN Block(b, s.p, t, i + 1, d)
          ELSE IF len = 0 THEN Block(b, s.p, t, at + 1, d)
          ELSE IF s.p + len > 8 * Len(b) THEN [ok |-> FALSE, p |-> p, d |-> d, any |-> FALSE]
          ELSE Block(b, s.p + len, t, at + 1, IF at < 64 THEN [d EXCEPT ![at + 1] = v] ELSE d)
(* the differences of n blocks; the first of a block is relative to that of  *)
(* the block before                                                          *)
Blocks(b, t, n) ==
  LET step(st, j) ==
        IF ~st.ok THEN st ELSE
        LET k == Block(b, st.p, t, 0, Zero64)  first == k.d[1] + st.carry IN
        IF ~k.ok THEN [st EXCEPT !.ok = FALSE, !.any = k.any]
        ELSE [any |-> FALSE, ok |-> TRUE, p |-> k.p, carry |-> first, d |-> st.d \o [k.d EXCEPT ![1] = first]]
  IN FoldLeft(step, [ok |-> TRUE, any |-> FALSE, p |-> 0, carry |-> 0, d |-> <<>>], [j \in 1..n |-> j])
(* a sample is the difference to the one two before, or to 512 at the start  *)
(* of a row                                                                  *)
Samples(d, cols) ==
  LET step(a, i) ==
        LET base == IF i % cols = 0 THEN <<512, 512>> ELSE a.base
            v == base[(i % 2) + 1] + d[i + 1]
        IN [base |-> [base EXCEPT ![(i % 2) + 1] = v], v |-> Append(a.v, v % 65536)]
  IN FoldLeft(step, [base |-> <<512, 512>>, v |-> <<>>], [i \in 1..Len(d) |-> i - 1]).v
(* the image at p: [ok, v, low] *)
CrwImage(w, p, table, cols, rows) ==
  IF cols = 0 \/ rows = 0 THEN [ok |-> FALSE, low |-> FALSE, any |-> FALSE]
  \* a block is two codes of a bit at least: more than the file can have
  ELSE IF rows > (256 * WLen(w)) \div cols THEN [ok |-> FALSE, low |-> FALSE, any |-> FALSE]
  ELSE
  LET low == HasLowBits(w, p)
      n == cols * rows
      from == p + 514 + (IF low THEN n \div 4 ELSE 0)
      b == Unstuffed(SubSeq(w.f, w.o + from + 1, Len(w.f)))
      t == IF table \in {0, 1} THEN table + 1 ELSE 3
      k == Blocks(b, t, (n + 63) \div 64)
      hi == Samples(k.d, cols)
      bits(i) == (B(w, p + (i \div 4)) \div Pow2(2 * (i % 4))) % 4
  IN IF from > WLen(w) THEN [ok |-> FALSE, low |-> low, any |-> FALSE]
     ELSE IF ~k.ok THEN [ok |-> FALSE, low |-> low, any |-> k.any]
     ELSE IF low /\ p + (((n + 63) \div 64) * 16) > WLen(w) THEN [ok |-> FALSE, low |-> low, any |-> FALSE]
     ELSE [ok |-> TRUE, low |-> low,
           v |-> [i \in 1..n |-> IF low THEN ((hi[i] * 4) + bits(i - 1)) % 65536 ELSE hi[i]]]

(* ---- the raw image of a file ---- *)
(* the dimensions and the active area *)
CrwSensorOf(f) ==
  LET r == Rec(f.exif, kSensor)  v(i) == U16(f.w, f.le, r.at + 2 * i)
      even(x) == x + (x % 2)
  IN IF ~r.ok \/ r.in \/ ~Has(f.w, r.at, 18) THEN [ok |-> FALSE]
     ELSE IF v(7) <= v(5) \/ v(8) <= v(6) THEN [ok |-> FALSE] \* no active area: not the dimensions of a sensor
     ELSE [ok |-> TRUE, w |-> v(1), h |-> v(2), aa |-> <<v(5), v(6), even(v(7) - v(5)), even(v(8) - v(6))>>]
DecoderOf(f) ==
  LET r == Rec(f.exif, kDecoder) IN
  IF ~r.ok \/ r.in \/ ~Has(f.w, r.at, 4) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> U32(f.w, f.le, r.at)]
CrwRaw(c, skip) ==
  LET f == CiffOf(c)
      i == ImageInfo(f)  s == CrwSensorOf(f)  t == DecoderOf(f)  r == Rec(f.root, kRaw)
      im == CrwImage(f.w, r.at, t.v, s.w, s.h)
      base == [ok |-> TRUE, comp |-> 0, tsz |-> <<>>, photom |-> 32803, cfa |-> Pattern(<<0, 1, 1, 2>>), lin |-> <<>>]
  IN IF ~i.ok \/ ~t.ok \/ ~r.ok \/ r.in THEN Failed
     ELSE IF r.at < 0 \/ r.at > WLen(f.w) THEN Failed
     ELSE IF skip
     THEN IF ~RecOk(f.w, r) THEN Failed
          ELSE base @@ [w |-> i.w, h |-> i.h, bpc |-> i.bits % 65536, type |-> "COMP_RAW", dk |-> "8", data |-> RecBytes(f.w, r)]
     ELSE IF ~s.ok THEN Failed
     ELSE IF ~im.ok THEN Failed @@ [any |-> im.any]
     ELSE base @@ [w |-> s.w, h |-> s.h, bpc |-> IF im.low THEN 12 ELSE 10, type |-> "RAW", dk |-> "16", data |-> im.v]
=============================================================================
