-------------------------------- MODULE Fuji --------------------------------
(* The compressed raw data of Fujifilm cameras. The image is cut in strips   *)
(* of 768 columns; a strip is coded by blocks of 6 rows. In a block the      *)
(* samples of a colour are in lines: 3 of red, 6 of green, 3 of blue, coded  *)
(* in pairs, each sample predicted from its neighbours.                      *)
EXTENDS Bytes

BlockW == 768
Ceil(a, b) == (a + b - 1) \div b
(* bits it takes to tell n states apart *)
RECURSIVE Log2Ceil(_)
Log2Ceil(n) == IF n <= 2 THEN 1 ELSE 1 + Log2Ceil(Ceil(n, 2))
Pad16(n) == ((n + 15) \div 16) * 16

(* the header *)
FujiHeader(b) ==
  IF Len(b) < 16 THEN [ok |-> FALSE]
  ELSE LET s(i) == 256 * b[i] + b[i + 1]
           h == [lossless |-> b[3] = 1, xt |-> b[4] = 16, bits |-> b[5], h |-> s(6), rw |-> s(8), w |-> s(10),
                 strips |-> b[14], lines |-> s(15)]
       IN [h EXCEPT !.bits = @] @@
          [ok |-> /\ s(1) = 18771 /\ b[4] \in {0, 16} /\ b[5] \in {12, 14, 16}
                  /\ h.h \in 6..12288 /\ h.w \in 768..12288 /\ h.w % 24 = 0
                  /\ s(12) = BlockW /\ h.rw = BlockW * h.strips /\ h.strips = Ceil(h.w, BlockW) /\ h.strips \in 1..16
                  /\ h.lines = h.h \div 6 /\ h.lines <= 2048]

Abs(x) == IF x < 0 THEN -x ELSE x
MaxVal(h) == Pow2(h.bits) - 1
(* quantization: a difference falls in one of 9 classes; table t is of       *)
(* [base, qp, total, bits, multi, grads: where its gradients start]          *)
Table(base, qp, total, multi, first) ==
  [base |-> base, qp |-> qp, total |-> total, bits |-> Log2Ceil(total), multi |-> multi, first |-> first]
MainTable(h, base) ==
  LET mx == MaxVal(h)
      a == IF 3 * base + 18 > mx \/ 3 * base + 18 < base + 1 THEN base + 1 ELSE 3 * base + 18
      b == IF 5 * base + 67 < a \/ 5 * base + 67 > mx THEN a ELSE 5 * base + 67
      c == IF 7 * base + 276 < b \/ 7 * base + 276 > mx THEN b ELSE 7 * base + 276
  IN Table(base, <<base, a, b, c>>, (mx + 2 * base) \div (2 * base + 1) + 1, 9, 1)
LossyTable(h, k) ==
  Table(k - 1, CASE k = 1 -> <<0, 18, 67, 276>> [] k = 2 -> <<1, 21, 72, 283>> [] OTHER -> <<2, 24, 77, 290>>,
        (MaxVal(h) + 2 * (k - 1)) \div (2 * k - 1) + 1, 3, 42 + 5 * (k - 1))
Class(t, v) ==
  LET q == t.qp IN
  CASE v <= -q[4] -> -4 [] v <= -q[3] -> -3 [] v <= -q[2] -> -2 [] v < -q[1] -> -1
    [] v <= q[1] -> 0 [] v < q[2] -> 1 [] v < q[3] -> 2 [] v < q[4] -> 3 [] OTHER -> 4
StartGrad(t) == <<Max2(2, (t.total + 32) \div 64), 1>>

(* which table codes a sample whose surroundings differ by d: the smooth     *)
(* ones have tables of their own when the main one is coarse enough          *)
TableFor(ts, d) ==
  CASE ts[1].base >= 1 /\ d <= 5 -> ts[2]
    [] ts[1].base >= 2 /\ d <= 6 -> ts[3]
    [] ts[1].base >= 3 /\ d <= 7 -> ts[4]
    [] OTHER -> ts[1]

(* ---- codes: b is the bytes, p the position of the next bit ---- *)
RECURSIVE BitsAt(_, _, _)
BitsAt(b, p, n) ==
  IF n = 0 THEN 0
  ELSE LET inb == 8 - (p % 8)
           k == p \div 8
           byte == IF k >= Len(b) THEN 0 ELSE b[k + 1]
           m == IF n < inb THEN n ELSE inb
       IN ((byte \div Pow2(inb - m)) % Pow2(m)) * Pow2(n - m) + BitsAt(b, TLCEval(p + m), TLCEval(n - m))
(* how many zeros there are from p on; nothing is after the end *)
Lead == [x \in 0..255 |-> CHOOSE n \in 0..8 : x < Pow2(8 - n) /\ (n = 8 \/ x >= Pow2(7 - n))]
RECURSIVE ZeroBytes(_, _)
ZeroBytes(b, k) ==
  IF k >= Len(b) THEN 0 ELSE IF b[k + 1] # 0 THEN Lead[b[k + 1]] ELSE 8 + ZeroBytes(b, TLCEval(k + 1))
Zeros(b, p) ==
  LET k == p \div 8  r == p % 8  x == (b[k + 1] * Pow2(r)) % 256 IN
  IF k >= Len(b) THEN 0 ELSE IF x # 0 THEN Lead[x] ELSE 8 - r + ZeroBytes(b, TLCEval(k + 1))
RECURSIVE Shift(_, _)
Shift(a, n) == IF n >= a THEN 0 ELSE 1 + Shift(a, TLCEval(2 * n))
BitDiff(g) == LET s == Shift(g[1], g[2]) IN IF s > 15 THEN 15 ELSE s
(* the code at p: [p: what follows, v: signed value, ok, g: the gradient after] *)
Code(h, b, p, t, g) ==
  LET z == Zeros(b, p)
      short == z < 4 * h.bits - t.bits - 1
      nb == IF short THEN BitDiff(g) ELSE t.bits
      x == BitsAt(b, p + z + 1, nb)
      c == IF short THEN IF z > 65535 THEN -1 ELSE z * Pow2(nb) + x ELSE 1 + x
      v == IF c % 2 = 1 THEN -1 - c \div 2 ELSE c \div 2
      half == g[2] = 64
      s == g[1] + Abs(v)
  IN [p |-> p + z + 1 + nb, ok |-> c >= 0 /\ c < t.total, v |-> v,
      g |-> IF half THEN <<s \div 2, 33>> ELSE <<s, g[2] + 1>>]

(* the value a prediction and a code make *)
Value(h, t, grad, pred, v) ==
  LET q == 2 * t.base + 1
      x == IF grad < 0 THEN pred - v * q ELSE pred + v * q
      y == IF x < -t.base THEN x + t.total * q ELSE IF x > t.base + MaxVal(h) THEN x - t.total * q ELSE x
  IN IF y < 0 THEN 0 ELSE IF y > MaxVal(h) THEN MaxVal(h) ELSE y
Interpolate(f, c, bb, d) ==
  LET cb == Abs(c - bb)  fb == Abs(f - bb)  db == Abs(d - bb) IN
  (IF cb > fb /\ cb > db THEN f + d + 2 * bb ELSE IF db > cb /\ db > fb THEN f + c + 2 * bb ELSE d + c + 2 * bb) \div 4

(* A line has line[1..lw] its samples; on the left of it is the first sample *)
(* of the line before, on its right the last one.                            *)
LeftOf(prev) == prev[1]
RightOf(prev, lw) == prev[lw]

(* State of a pair of lines being decoded: *)
(* [p, ok, x: the two lines, ge, go: gradients of even and odd places]       *)
(* pp[k] is <<line before, line before that, line before that again>> of     *)
(* line k. i: the place, from 0.                                             *)
At0(line, i, lw, prev) == IF i < 0 THEN LeftOf(prev) ELSE IF i >= lw THEN RightOf(prev, lw) ELSE line[i + 1]
Even(h, b, ts, lw, pp, k, i, s) ==
  LET b1 == pp[k][1]  b2 == pp[k][2]
      rb == b1[i + 1]  rc == At0(b1, i - 1, lw, b2)  rd == At0(b1, i + 1, lw, b2)  rf == b2[i + 1]
      t == TableFor(ts, Abs(rf - rb) + Abs(rc - rb))
      gr == t.multi * Class(t, rb - rf) + Class(t, rc - rb)
      gi == t.first + Abs(gr)
      c == Code(h, b, s.p, t, s.ge[gi])
  IN [s EXCEPT !.p = c.p, !.ok = @ /\ c.ok, !.ge[gi] = c.g,
               !.x[k][i + 1] = Value(h, t, gr, Interpolate(rf, rc, rb, rd), c.v)]
Interp(lw, pp, k, i, s) ==
  LET b1 == pp[k][1]  b2 == pp[k][2]
  IN [s EXCEPT !.x[k][i + 1] = Interpolate(b2[i + 1], At0(b1, i - 1, lw, b2), b1[i + 1], At0(b1, i + 1, lw, b2))]
Odd(h, b, ts, lw, pp, k, i, s) ==
  LET b1 == pp[k][1]  b2 == pp[k][2]
      ra == s.x[k][i]  rb == b1[i + 1]  rc == b1[i]  rd == At0(b1, i + 1, lw, b2)  rg == At0(s.x[k], i + 1, lw, b1)
      t == TableFor(ts, Abs(rb - rc) + Abs(rc - ra))
      gr == t.multi * Class(t, rb - rc) + Class(t, rc - ra)
      gi == t.first + Abs(gr)
      pred == IF (rb > rc /\ rb > rd) \/ (rb < rc /\ rb < rd) THEN (rg + ra + 2 * rb) \div 4 ELSE (ra + rg) \div 2
      c == Code(h, b, s.p, t, s.go[gi])
  IN [s EXCEPT !.p = c.p, !.ok = @ /\ c.ok, !.go[gi] = c.g, !.x[k][i + 1] = Value(h, t, gr, pred, c.v)]

(* which even places of line j (1..6 of the block) are not coded: none in a   *)
(* Bayer image; in an X-Trans one, where that line has another colour         *)
Skipped(h, colour, j, i) ==
  /\ h.xt
  /\ CASE colour = "R" -> (j = 1) \/ (j = 2 /\ i % 4 = 0) \/ (j = 3 /\ i % 4 = 2)
       [] colour = "G" -> j \in {3, 6}
       [] OTHER -> (j = 1) \/ (j = 2 /\ i % 4 = 2) \/ (j = 3 /\ i % 4 = 0)
(* one step of the pair: the even place of both, and the odd one 9 behind *)
Step(h, b, ts, lw, pp, cs, js, s, n) ==
  LET e == 2 * (n - 1)  o == 2 * (n - 5) + 1
      ev(st, k) == IF e >= lw THEN st
                   ELSE IF Skipped(h, cs[k], js[k], e) THEN Interp(lw, pp, k, e, st)
                   ELSE Even(h, b, ts, lw, pp, k, e, st)
      od(st, k) == IF o < 1 THEN st ELSE Odd(h, b, ts, lw, pp, k, o, st)
      s1 == ev(s, 1)  s2 == ev(s1, 2)  s3 == od(s2, 1)
  IN IF ~s.ok THEN s ELSE od(s3, 2)

(* ---- a block: six pairs of lines ---- *)
(* the decoder between blocks: [p, ok, l: [R, G, B -> lines, last one first],  *)
(* ge, go: gradients of each of the three sets]                              *)
Pairs6 == << <<"R", 1, "G", 1, 1>>, <<"G", 2, "B", 1, 2>>, <<"R", 2, "G", 3, 3>>,
             <<"G", 4, "B", 2, 1>>, <<"R", 3, "G", 5, 2>>, <<"G", 6, "B", 3, 3>> >>
PairOf(h, b, ts, lw, d, pr) ==
  LET c0 == pr[1]  c1 == pr[3]  g == pr[5]
      zero == TLCEval([i \in 1..lw |-> 0])
      s0 == [p |-> d.p, ok |-> d.ok, x |-> <<zero, zero>>, ge |-> d.ge[g], go |-> d.go[g]]
      pp == TLCEval(<<SubSeq(d.l[c0], 1, 2), SubSeq(d.l[c1], 1, 2)>>)
      s == FoldLeft(LAMBDA a, n : Step(h, b, ts, lw, pp, <<c0, c1>>, <<pr[2], pr[4]>>, a, n), s0, [n \in 1..(lw \div 2 + 4) |-> n])
  IN [d EXCEPT !.p = s.p, !.ok = s.ok, !.l[c0] = <<s.x[1]>> \o @, !.l[c1] = <<s.x[2]>> \o @, !.ge[g] = s.ge, !.go[g] = s.go]
Keep2(ls) == SubSeq(ls, 1, 2)
BlockOf6(h, b, ts, lw, d) ==
  FoldLeft(LAMBDA a, pr : PairOf(h, b, ts, lw, a, pr), [d EXCEPT !.l = [c \in DOMAIN @ |-> Keep2(@[c])]], Pairs6)
LineW(h) == IF h.xt THEN 512 ELSE 384
(* where in its line the sample of column x is *)
PlaceOf(h, x) == IF h.xt THEN LET m == x % 3 IN (((2 * x) \div 3) - (((2 * x) \div 3) % 2)) + (IF m = 0 THEN 0 ELSE 1)
                 ELSE x \div 2
(* row y (0..5), column x of the block, given the colour that is there *)
SampleOf(h, d, y, x, colour) ==
  LET i == 1 + PlaceOf(h, x) IN
  CASE colour = 1 -> d.l["G"][6 - y][i] [] colour = 0 -> d.l["R"][3 - y \div 2][i] [] OTHER -> d.l["B"][3 - y \div 2][i]

(* ---- a strip ---- *)
NewGrads(h, ts, old) ==
  [i \in 1..56 |-> IF i <= 41 THEN StartGrad(ts[1]) ELSE old[i]]
FujiTables(h, base) == IF h.lossless THEN <<MainTable(h, 0)>> ELSE <<MainTable(h, base)>> \o [k \in 1..3 |-> LossyTable(h, k)]
NoGrads(h) == [i \in 1..56 |-> IF i <= 41 \/ h.lossless THEN <<0, 0>> ELSE StartGrad(LossyTable(h, 1 + (i - 42) \div 5))]
(* the samples of the strip: w columns, 6 rows per block; bases: those of the blocks *)
Colour(cfa, y, x) == IF Len(cfa) = 4 THEN cfa[1 + 2 * (y % 2) + (x % 2)] ELSE cfa[1 + 6 * (y % 6) + (x % 6)]
StripOf(h, b, w, cfa, bases) ==
  LET lw == LineW(h)
      z == TLCEval([i \in 1..lw |-> 0])
      g0 == TLCEval([i \in 1..3 |-> NoGrads(h)])
      d0 == [p |-> 0, ok |-> TRUE, l |-> [c \in {"R", "G", "B"} |-> <<z, z>>], ge |-> g0, go |-> g0]
      block(a, n) ==
        IF ~a.d.ok THEN a
        ELSE LET ts == TLCEval(FujiTables(h, bases[n]))
                 fresh == n = 1 \/ (~h.lossless /\ bases[n] # bases[n - 1])
                 ng(g) == [i \in 1..3 |-> NewGrads(h, ts, g[i])]
                 d == IF fresh THEN [a.d EXCEPT !.ge = ng(@), !.go = ng(@)] ELSE a.d
                 r == BlockOf6(h, b, ts, lw, d)
             IN [d |-> r, rows |-> IF ~r.ok THEN a.rows
                   ELSE a.rows \o [y \in 1..6 |-> [x \in 1..w |-> SampleOf(h, r, y - 1, x - 1, Colour(cfa, y - 1, x - 1))]]]
      r == FoldLeft(block, [d |-> d0, rows |-> <<>>], [n \in 1..h.lines |-> n])
  IN [ok |-> IF r.d.p > 8 * Len(b) THEN "any" ELSE IF r.d.ok THEN "yes" ELSE "no", rows |-> r.rows]

(* the image: [ok: "yes", "no", "any" when the codes run out of a strip, v] *)
FujiImage(b, w, hh, cfa) ==
  LET h == FujiHeader(b) IN
  IF ~h.ok THEN [ok |-> "no"]
  ELSE LET n == h.strips
           q0 == 16 + Pad16(4 * n)
           step == Pad16(h.lines)
           s0 == q0 + (IF h.lossless THEN 0 ELSE n * step)
           size(k) == IF Len(b) < 16 + 4 * k \/ b[16 + 4 * (k - 1) + 1] >= 8 THEN -1
                      ELSE LET o == 16 + 4 * (k - 1) IN ((b[o + 1] * 256 + b[o + 2]) * 256 + b[o + 3]) * 256 + b[o + 4]
           off(k) == FoldLeft(LAMBDA a, i : IF a < 0 \/ size(i) < 0 \/ a > Len(b) THEN -1 ELSE a + size(i), s0, [i \in 1..(k - 1) |-> i])
           wid(k) == IF k < n THEN BlockW ELSE h.w - BlockW * (n - 1)
           strip(k) == StripOf(TLCEval(h), TLCEval(SubSeq(b, off(k) + 1, Min2(Len(b), off(k) + size(k)))), wid(k), cfa,
                               TLCEval([i \in 1..h.lines |-> IF h.lossless THEN 0 ELSE b[q0 + step * (k - 1) + i]]))
       IN IF h.w # w \/ h.h # hh \/ off(n + 1) < 0 \/ off(n + 1) > Len(b) + 16 \/ {0, 1, 2} \cap ToSet(cfa) = {}
             \/ ~(ToSet(cfa) \subseteq {0, 1, 2}) \/ h.h % (IF Len(cfa) = 4 THEN 2 ELSE 6) # 0
          THEN [ok |-> "no"]
          ELSE LET ss == TLCEval([k \in 1..n |-> strip(k)])
                   oks == {ss[k].ok : k \in 1..n}
                   row(y) == IF y <= 6 * h.lines THEN Concat([k \in 1..n |-> ss[k].rows[y]]) ELSE [x \in 1..w |-> 0]
               IN IF "no" \in oks THEN [ok |-> "no"] ELSE IF off(n + 1) > Len(b) \/ "any" \in oks THEN [ok |-> "any"]
                  ELSE [ok |-> "yes", v |-> Concat([y \in 1..hh |-> row(y)])]
=============================================================================
