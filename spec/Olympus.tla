------------------------------ MODULE Olympus ------------------------------
(* Olympus ORF files: the raw image.                                         *)
EXTENDS Sensor

(* ---- the compressed format: rows of two interleaved columns ---- *)
Bits(s, p, n) == IF n = 0 THEN 0 ELSE BitsMsb(s, p, n)
(* as Bits, where bits after the end are 0 *)
BitsPad(s, p, n) == LET r == 8 * Len(s) - p IN
  IF r >= n THEN Bits(s, p, n) ELSE Bits(s, p, r) * Pow2(n - r)
(* number of leading zeros of the 12 bits v *)
Lead12(v) == IF v = 0 THEN 12 ELSE 12 - CHOOSE n \in 1..12 : Pow2(n - 1) <= v /\ v < Pow2(n)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Invert(a) == 0 - a - 1
(* floor(a / 2^n) *)
Asr(a, n) == a \div Pow2(n)
NBits(c) ==
  LET i == IF c[3] < 3 THEN 2 ELSE 0
      more == {n \in (2 + i)..16 : n + i >= 16 \/ c[1] \div Pow2(n + i) = 0}
  IN CHOOSE n \in more : \A m \in more : n <= m
(* one code at bit p, carry c: [ok, p, c, d: the difference] *)
Code(s, p, c) ==
  LET nb == NBits(c)
      b == BitsPad(s, p, 15)
      neg == b \div 16384 = 1
      lz == Lead12(b % 4096)
      p1 == p + Min2(15, lz + 4)
      esc == lz = 12
      p2 == IF esc THEN p1 + 16 - nb ELSE p1
      p3 == p2 + nb
      high == IF esc THEN Bits(s, p1, 16 - nb) \div 2 ELSE lz
      x == high * Pow2(nb) + Bits(s, p2, nb)
      diff == (IF neg THEN Invert(x) ELSE x) + c[2]
  IN IF p3 > 8 * Len(s) THEN [ok |-> FALSE, p |-> p, c |-> c, d |-> 0]
     ELSE [ok |-> TRUE, p |-> p3, c |-> <<x, Asr(3 * diff + c[2], 5), IF x > 16 THEN 0 ELSE c[3] + 1>>,
           d |-> 4 * diff + ((b \div 4096) % 4)]
Predict(wt, n, nw) ==
  IF (wt < nw /\ nw < n) \/ (n < nw /\ nw < wt)
  THEN IF Abs(wt - nw) > 32 \/ Abs(n - nw) > 32 THEN wt + n - nw ELSE (wt + n) \div 2
  ELSE IF Abs(wt - nw) > Abs(n - nw) THEN wt ELSE n
(* row y of a w wide image; above is the image so far.  [ok, p, out] *)
OlyRow(s, w, y, p, above) ==
  LET at(x, dy) == above[(y - dy) * w + x + 1]
      step(st, x) ==
        LET par == 1 + (x % 2)
            r == Code(s, st.p, st.c[par])
            pred == IF y < 2 THEN IF x < 2 THEN 0 ELSE st.out[x - 1]
                    ELSE IF x < 2 THEN at(x, 2)
                    ELSE Predict(st.out[x - 1], at(x, 2), at(x - 2, 2))
        IN IF ~st.ok \/ ~r.ok THEN [st EXCEPT !.ok = FALSE]
           ELSE [ok |-> TRUE, p |-> r.p, c |-> [st.c EXCEPT ![par] = r.c], out |-> Append(st.out, (pred + r.d) % 65536)]
  IN FoldLeft(step, [ok |-> TRUE, p |-> p, c |-> <<<<0, 0, 0>>, <<0, 0, 0>>>>, out |-> <<>>], [x \in 1..(2 * (w \div 2)) |-> x - 1])
(* the image in s: [ok, v] *)
OlyDecode(s, w, h) ==
  LET b == SubSeq(s, 8, Len(s))
      step(st, y) == IF ~st.ok THEN st
                     ELSE LET r == OlyRow(b, w, y, st.p, st.v)
                          IN [ok |-> r.ok, p |-> r.p, v |-> st.v \o r.out \o (IF w % 2 = 1 THEN <<0>> ELSE <<>>)]
  \* the samples come in pairs: there is none in a single column
  IN IF Len(s) < 8 \/ w = 1 THEN [ok |-> FALSE, v |-> <<>>]
     ELSE FoldLeft(step, [ok |-> TRUE, p |-> 0, v |-> <<>>], [y \in 1..h |-> y - 1])

(* ---- the uncompressed 12 bit formats ---- *)
(* even rows, then from a multiple of 2048 odd rows; missing samples are 0 *)
Interlaced(s, w, h) ==
  LET half == (h + 1) \div 2
      second == (((half * w * 3) \div 2) \div 2048 + 1) * 2048
      sample(y, x) ==
        LET from == (IF y % 2 = 1 THEN second ELSE 0) + ((y \div 2) * w * 12) \div 8
        IN IF from + 3 * (x \div 2) + 3 > Len(s) THEN 0 ELSE BitsMsb(s, 8 * from + 12 * x, 12)
  IN [i \in 1..(w * h) |-> sample((i - 1) \div w, (i - 1) % w)]
(* words of 32 bits, least significant byte first, that hold the samples from their most significant bit *)
Msb32(s, w, h) ==
  LET swapped == [i \in 1..Len(s) |-> LET j == 4 * ((i - 1) \div 4) + 4 - ((i - 1) % 4) IN IF j <= Len(s) THEN s[j] ELSE 0]
      whole == (Len(s) \div 12) * 8
  IN [i \in 1..(w * h) |-> IF i > whole THEN 0 ELSE BitsMsb(swapped, 12 * (i - 1), 12)]

(* ---- the file ---- *)
cOly == 65536
OrfRaw(c, skip) ==
  LET r == RawOf(c)
      n == r.w * r.h
      s == r.data  ls == Len(s)
      u == CASE ls = r.h * ((r.w * 12) \div 8 + (r.w + 2) \div 10) -> Unpack(s, Enc(12, FALSE, TRUE), r.w, r.h)
             [] ls = (3 * n) \div 2 /\ r.w < 3700 -> [ok |-> TRUE, v |-> Interlaced(s, r.w, r.h)]
             [] ls = (3 * n) \div 2 -> [ok |-> TRUE, v |-> Msb32(s, r.w, r.h)]
             [] OTHER -> OlyDecode(s, r.w, r.h)
  IN IF ~r.ok THEN r
     ELSE IF r.comp # cOly \/ skip \/ r.dk # "8" THEN r
     ELSE IF u.ok THEN [r EXCEPT !.comp = cNone, !.type = "RAW", !.dk = "16", !.data = u.v]
     ELSE r
=============================================================================
