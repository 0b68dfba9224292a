------------------------------- MODULE Render -------------------------------
(* Rendering of a raw image.                                                 *)
(* A source is [w, h, data: samples in rows, black, white, lin: table or     *)
(* <<>>, bpc, cfa: name of the pattern, photom, cms: <<[i: illuminant, m: 9  *)
(* entries in tenths, or <<>>]>>].                                           *)
EXTENDS Bytes, Json, FiniteSets

Gamma == JsonDeserialize("data/gamma.json")
Colour == [RGGB |-> <<"r", "g", "g", "b">>, GBRG |-> <<"g", "b", "r", "g">>, BGGR |-> <<"b", "g", "g", "r">>, GRBG |-> <<"g", "r", "b", "g">>]

(* 1: linear values, as numerators; the denominator is white - black *)
Lin(s, v) == LET u == IF Len(s.lin) = Pow2(s.bpc) THEN s.lin[Min2(v, Len(s.lin) - 1) + 1] ELSE v
             IN Max2(0, u - s.black)
Linear(s) == [i \in 1..(s.w * s.h) |-> Lin(s, s.data[i])]

(* 2: colours, as numerators over twice the denominator *)
(* sum of the middle two of four *)
Middle(a, b, c, d) == LET mx == Max2(Max2(a, b), Max2(c, d))  mn == Min2(Min2(a, b), Min2(c, d)) IN a + b + c + d - mx - mn
ColourAt(s, x, y) == Colour[s.cfa][2 * (y % 2) + (x % 2) + 1]
(* component c of the pixel at x, y, which is not on an edge *)
Component(s, l, c, x, y) ==
  LET at(dx, dy) == l[(y + dy) * s.w + x + dx + 1]
      is(dx, dy) == ColourAt(s, x + dx, y + dy) = c
  IN CASE is(0, 0) -> 2 * at(0, 0)
       [] is(1, 0) /\ is(0, 1) -> Middle(at(0, -1), at(-1, 0), at(1, 0), at(0, 1))
       [] is(1, 0) -> at(-1, 0) + at(1, 0)
       [] is(0, 1) -> at(0, -1) + at(0, 1)
       [] OTHER -> Middle(at(-1, -1), at(1, -1), at(-1, 1), at(1, 1))
Rgb == <<"r", "g", "b">>
(* the three components of each pixel *)
Mosaiced(s, l) ==
  [i \in 1..(3 * (s.w - 2) * (s.h - 2)) |->
    LET p == (i - 1) \div 3 IN Component(s, l, Rgb[1 + ((i - 1) % 3)], 1 + (p % (s.w - 2)), 1 + p \div (s.w - 2))]
Gray(l) == [i \in 1..(3 * Len(l)) |-> 2 * l[1 + ((i - 1) \div 3)]]

(* the value x / d of 0 to 1 as 16 bits: is v x * 65535 / d, rounded *)
IsWord(v, x, d) ==
  IF x >= d THEN v = 65535
  ELSE LET q1 == (x * 255) \div d  r1 == (x * 255) % d
           q == q1 * 257 + (r1 * 257) \div d  r == (r1 * 257) % d
       IN \/ v = q /\ 2 * r <= d
          \/ v = q + 1 /\ 2 * r >= d

(* 3: colour correction *)
XyzRgb == <<<<32406, -15372, -4986>>, <<-9689, 18758, 415>>, <<557, -2040, 10570>>>>
D65Matrix(s) == LET g == SelectSeq(s.cms, LAMBDA m : m.i = 21 /\ Len(m.m) = 9) IN IF g = <<>> THEN <<>> ELSE g[1].m
At(m, i, j) == m[3 * (((i - 1) % 3)) + ((j - 1) % 3) + 1]
(* cofactor of row i, column j *)
Cof(m, i, j) == At(m, i + 1, j + 1) * At(m, i + 2, j + 2) - At(m, i + 1, j + 2) * At(m, i + 2, j + 1)
Det(m) == At(m, 1, 1) * Cof(m, 1, 1) + At(m, 1, 2) * Cof(m, 1, 2) + At(m, 1, 3) * Cof(m, 1, 3)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
(* t * c / 10000 *)
MulC(t, c) == t * (c \div 10000) + (t * (c % 10000)) \div 10000
TooLarge == 200000
(* [ok, v, e]: the linear components of a pixel, in units of 1 / 65535, that *)
(* m makes of the three v; each within e[i]                                  *)
Convert(m, v) ==
  LET d == Det(m)  sg == IF d < 0 THEN -1 ELSE 1  ad == Abs(d)
      sum(j) == sg * (Cof(m, 1, j) * v[1] + Cof(m, 2, j) * v[2] + Cof(m, 3, j) * v[3])
      big == \E j \in 1..3 : Abs(sum(j) \div ad) > TooLarge \div 10 - 1
      x(j) == (sum(j) \div ad) * 10 + ((sum(j) % ad) * 10) \div ad
      ex(j) == (5 * (Abs(Cof(m, 1, j)) + Abs(Cof(m, 2, j)) + Abs(Cof(m, 3, j)))) \div ad + 2
      row(i) == XyzRgb[i]
  IN IF big THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE,
           v |-> [i \in 1..3 |-> MulC(x(1), row(i)[1]) + MulC(x(2), row(i)[2]) + MulC(x(3), row(i)[3])],
           e |-> [i \in 1..3 |-> MulC(ex(1), Abs(row(i)[1])) + MulC(ex(2), Abs(row(i)[2])) + MulC(ex(3), Abs(row(i)[3])) + 6]]
(* sRGB value of the linear value l *)
Srgb(l) == IF l <= 0 THEN 0 ELSE IF l >= 65536 THEN 65535
           ELSE LET k == l \div 16 IN Gamma.srgb[k + 1] + ((l % 16) * (Gamma.srgb[k + 2] - Gamma.srgb[k + 1])) \div 16
(* g * 65535 / d, rounded down, of x up to 4 d *)
Word(x, d) == ((x * 255) \div d) * 257 + (((x * 255) % d) * 257) \div d
(* is g (16 bits) the gray x / d *)
InvG(g) == LET k == (g * 4096) \div 65535  r == (g * 4096) % 65535 IN
           IF k >= 4096 THEN 100000000
           ELSE Gamma.g22[k + 1] + (((Gamma.g22[k + 2] - Gamma.g22[k + 1]) * (r \div 16)) \div 4096)
IsGray(g, x, d) ==
  IF x >= d THEN g = 65535
  ELSE LET v == ((x * 10000) \div d) * 10000 + (((x * 10000) % d) * 10000) \div d
       IN InvG(Max2(0, g - 1)) - 30 <= v /\ v <= InvG(Min2(65535, g + 1)) + 30

(* what a request for a stage and a target (3 is sRGB) gives *)
pCfa == 32803
pLinear == 34892
Shape(s, stage) == IF stage = 1 \/ s.photom = pLinear THEN <<s.w, s.h>> ELSE <<s.w - 2, s.h - 2>>
Renders(s, stage, target) ==
  /\ stage > 0
  /\ Len(s.data) >= s.w * s.h
  /\ stage = 1 \/ s.photom = pLinear \/ (s.photom = pCfa /\ s.cfa \in DOMAIN Colour /\ s.w > 2 /\ s.h > 2)
  /\ stage < 3 \/ s.photom # pCfa \/ target = 3
(* is o that *)
RenderVerdict(s, stage, target, o) ==
  LET d == s.white - s.black
      sh == Shape(s, stage)
      n == (IF stage = 1 THEN 1 ELSE 3) * sh[1] * sh[2]
      l == Linear(s)
      px == IF s.photom = pLinear THEN Gray(l) ELSE Mosaiced(s, l)
      m == D65Matrix(s)
      plain == m = <<>>
      singular == IF plain THEN FALSE ELSE Det(m) = 0
      wrong == {i \in 1..n : ~IsWord(o.data[i], IF stage = 1 THEN l[i] ELSE px[i], IF stage = 1 THEN d ELSE 2 * d)}
      wrongGray == {i \in 1..n : ~IsGray(o.data[i], px[i], 2 * d)}
      pixel(k) == LET v == [j \in 1..3 |-> Word(px[3 * (k - 1) + j], 2 * d)]
                  IN IF \E j \in 1..3 : px[3 * (k - 1) + j] > 8 * d THEN [ok |-> FALSE]
                     ELSE IF plain THEN [ok |-> TRUE, v |-> v, e |-> <<2, 2, 2>>] ELSE Convert(m, v)
      wrongColour == {k \in 1..(n \div 3) :
                        LET c == pixel(k) IN
                        c.ok /\ \E j \in 1..3 : LET g == o.data[3 * (k - 1) + j] IN
                                                g < Srgb(c.v[j] - c.e[j]) - 4 \/ g > Srgb(c.v[j] + c.e[j]) + 4}
  IN IF ~Renders(s, stage, target) THEN IF o.st = "err" THEN "" ELSE "an image where there is none"
     ELSE IF o.st # "ok" THEN "no image: " \o o.st
     ELSE IF <<o.w, o.h>> # sh THEN "size " \o ToString(o.w) \o "x" \o ToString(o.h) \o " instead of " \o ToString(sh)
     ELSE IF o.dk # "16" \/ Len(o.data) # n THEN "length of the data"
     ELSE IF o.bpc # 16 \/ o.dt # "16RGB" THEN "format " \o o.dt
     ELSE IF o.blacks # <<0, 0, 0, 0>> \/ o.whites # <<65535, 65535, 65535, 65535>> THEN "levels"
     ELSE IF o.cfa # (IF stage = 1 THEN s.cfa ELSE "NONE") THEN "mosaic " \o o.cfa
     ELSE IF d <= 0 THEN ""
     ELSE IF stage < 3
     THEN IF wrong = {} THEN "" ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j IN "value " \o ToString(i - 1) \o " is " \o ToString(o.data[i])
     ELSE IF s.photom = pLinear
     THEN IF wrongGray = {} THEN "" ELSE "gray value " \o ToString((CHOOSE i \in wrongGray : \A j \in wrongGray : i <= j) - 1)
     ELSE IF singular THEN ""
     ELSE IF wrongColour = {} THEN "" ELSE "colour of pixel " \o ToString((CHOOSE i \in wrongColour : \A j \in wrongColour : i <= j) - 1)
=============================================================================
