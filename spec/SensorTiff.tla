----------------------------- MODULE SensorTiff -----------------------------
(* What the tags of TIFF based formats say about the sensor, by format.      *)
EXTENDS Sensor, Identity

NoArray == [some |-> FALSE, v |-> <<>>]
U16Array(d, tag, le) ==
  IF ~HasTag(d, tag) THEN NoArray
  ELSE LET e == Entry(d, tag) IN
    CASE e.type = TShort -> [some |-> TRUE, v |-> U16s(e, le)]
      [] e.type = TUndef -> [some |-> TRUE, v |-> [i \in 1..(e.count \div 2) |-> U16(DW(e), le, 2 * (i - 1))]]
      [] OTHER -> NoArray
ByteArray(d, tag) ==
  IF HasTag(d, tag) /\ Entry(d, tag).type \in {TByte, TUndef}
  THEN [some |-> TRUE, v |-> SubSeq(Entry(d, tag).data, 1, Entry(d, tag).count)] ELSE NoArray
(* the bytes of an entry, of whatever type *)
DataOf(d, tag) == Entry(d, tag).data
ByteAt(s, i) == s[i + 1]
Le16(s, i) == U16(Win(s, 0), TRUE, i)
W16(s, le, i) == U16(Win(s, 0), le, i)
Fracs(d, tag) ==
  IF ~HasTag(d, tag) THEN NoArray
  ELSE LET e == Entry(d, tag) IN
    CASE e.type = TShort -> [some |-> TRUE, v |-> [i \in 1..e.count |-> {<<U16s(e, d.le)[i], 1>>}]]
      [] e.type = TLong -> [some |-> TRUE, v |-> [i \in 1..e.count |-> {<<U32s(e, d.le)[i], 1>>}]]
      [] e.type \in {TRat, TSRat} -> LET p == Pairs(e, d.le) IN
           [some |-> TRUE, v |-> [i \in 1..e.count |-> {<<p[2*i-1], p[2*i]>>}]]
      [] OTHER -> NoArray
Low(v) == v % 65536
(* four values, or the first for all *)
Four(v) == IF Len(v) = 4 THEN [i \in 1..4 |-> Low(v[i])] ELSE IF v = <<>> THEN Quad(0) ELSE Quad(Low(v[1]))
One == {<<1, 1>>}
(* unsigned 32 bit: sums and differences that are in range *)
MinInt == -2147483647 - 1
UAdd(a, b) == IF a >= 0 /\ b >= 0 THEN Some(IF a > 2147483647 - b THEN (MinInt + a) + (b + MinInt) ELSE a + b)
              ELSE IF a < 0 /\ b < 0 THEN None ELSE IF a + b >= 0 THEN None ELSE Some(a + b)
USub(a, b) == IF ~ULe(b, a) THEN None
              ELSE IF a < 0 /\ b >= 0
              THEN LET d == (a - MinInt) - b IN Some(IF d >= 0 THEN MinInt + d ELSE (2147483647 + d) + 1)
              ELSE Some(a - b)
At2(r, x, y) == LET a == UAdd(r[1], x)  b == UAdd(r[2], y) IN IF a.some /\ b.some THEN <<a.v, b.v, r[3], r[4]>> ELSE <<>>
Whole(r) == <<0, 0, r.w, r.h>>
Bare(r) == [aa |-> <<>>, crop |-> <<>>, ar |-> <<>>, blacks |-> Quad(0), whites |-> Quad(MaxOf(r.bpc)), wb |-> <<>>, wxy |-> <<>>]

(* ---- DNG: the areas are top, left, bottom, right ---- *)
DngSensor(c, r) ==
  LET w == Win(c.file, 0)  m == MainOf(w, c, "DNG")  d == RawDir(w, c, "DNG")
      a == UIntArray(d, 50829)
      ww == USub(a.v[4], a.v[2])  hh == USub(a.v[3], a.v[1])
      aa == IF a.some /\ Len(a.v) >= 4 THEN IF ww.some /\ hh.some THEN <<a.v[2], a.v[1], ww.v, hh.v>> ELSE Whole(r) ELSE Whole(r)
      o == UIntArray(d, 50719)  s == UIntArray(d, 50720)
      bl == UIntArray(d, 50714)  wh == UIntArray(d, 50717)
      n == Fracs(m, 50728)  xy == Fracs(m, 50729)
  IN [Bare(r) EXCEPT !.aa = aa,
        !.crop = IF o.some /\ s.some /\ Len(o.v) >= 2 /\ Len(s.v) >= 2 THEN At2(<<o.v[1], o.v[2], s.v[1], s.v[2]>>, aa[1], aa[2]) ELSE <<>>,
        !.blacks = IF bl.some THEN Four(bl.v) ELSE @, !.whites = IF wh.some THEN Four(wh.v) ELSE @,
        !.wb = IF n.some /\ Len(n.v) >= 3 THEN IF Len(n.v) > 3 THEN SubSeq(n.v, 1, 4) ELSE Append(n.v, {}) ELSE <<>>,
        !.wxy = IF ~n.some /\ xy.some /\ Len(xy.v) >= 2 THEN SubSeq(xy.v, 1, 2) ELSE <<>>]

(* ---- Pentax ---- *)
Ratio(map, v) == LET k == SelectInSeq(map, LAMBDA x : x[1] = v) IN IF k = 0 THEN <<>> ELSE <<map[k][2], map[k][3]>>
PefSensor(c, r) ==
  LET w == Win(c.file, 0)  n == FileNote(w, c, "PEF")
      le == OrderFor(w, "PEF") = "le"
      o == U16Array(n, 56, le)  s == U16Array(n, 57, le)
      ar == ByteArray(n, 128)
      bl == UIntArray(n, 512)  wh == UIntValue(n, 126)  wb == UIntArray(n, 513)
      b == BuiltinFor("PEF", TiffCamera(c))
      given == IF bl.some THEN Four(bl.v) ELSE Quad(0)
  IN IF ~n.ok THEN Bare(r)
     ELSE [Bare(r) EXCEPT !.aa = Whole(r),
       !.crop = IF o.some /\ s.some /\ Len(o.v) >= 2 /\ Len(s.v) >= 2 THEN <<o.v[1], o.v[2], s.v[1], s.v[2]>> ELSE <<>>,
       !.ar = IF ar.some /\ ar.v # <<>> THEN Ratio(<< <<0, 4, 3>>, <<1, 3, 2>>, <<2, 16, 9>>, <<3, 1, 1>> >>, ar.v[1]) ELSE <<>>,
       !.blacks = IF ~wh.some /\ b.some /\ given[1] = 0 THEN Quad(b.black) ELSE given,
       !.whites = IF wh.some THEN Quad(Low(wh.v)) ELSE IF b.some /\ b.white # 0 THEN Quad(b.white) ELSE @,
       !.wb = IF wb.some /\ Len(wb.v) >= 4 THEN << {<<wb.v[2], wb.v[1]>>}, One, {<<wb.v[2], wb.v[4]>>}, {} >> ELSE <<>>]

(* ---- Nikon ---- *)
sNrw == <<78, 82, 87, 32>>
v0100 == <<48, 49, 48, 48>>
v0103 == <<48, 49, 48, 51>>
Mul4(v) == IF v \in 0..500000000 THEN 4 * v ELSE 2147483647
NefWb(n) ==
  LET p == Fracs(n, 12)  e == Entry(n, 12)
      Inv(f) == {<<x[2], x[1]>> : x \in f}
      G(f) == LET x == CHOOSE x \in f : TRUE IN IF x[1] = 0 THEN One ELSE f \cup {<<x[2], x[1]>>}
      rgb(rr, g, b) == << {<<g, rr>>}, One, {<<g, b>>}, {} >>
  IN IF ~n.ok THEN <<>>
     ELSE IF HasTag(n, 12) THEN IF e.count >= 4 /\ p.some THEN << Inv(p.v[1]), G(p.v[3]), Inv(p.v[2]), {} >> ELSE <<>>
     ELSE IF HasTag(n, 151)
     THEN LET s == DataOf(n, 151)  v == SubSeq(s, 1, 4) IN
          IF v = v0100 /\ Len(s) >= 80 THEN rgb(W16(s, n.le, 72), W16(s, n.le, 76), W16(s, n.le, 74))
          ELSE IF v = v0103 /\ Len(s) >= 26 THEN rgb(W16(s, n.le, 20), W16(s, n.le, 22), W16(s, n.le, 24)) ELSE <<>>
     ELSE IF HasTag(n, 20)
     THEN LET s == DataOf(n, 20)
              at == IF SubSeq(s, 5, 8) # v0100 /\ Len(s) > 72 THEN 56 ELSE IF Len(s) > 1572 THEN 1556 ELSE -1
              L(i) == U32(Win(s, 0), TRUE, at + i)
          IN IF Len(s) = 2560 THEN << {<<256, W16(s, FALSE, 1248)>>}, One, {<<256, W16(s, FALSE, 1250)>>}, {} >>
             ELSE IF SubSeq(s, 1, 4) = sNrw /\ Len(s) >= 8 /\ at >= 0
             THEN rgb(Mul4(L(0)), L(4) + L(8), Mul4(L(12))) ELSE <<>>
     ELSE <<>>
NefSensor(c, r) ==
  LET w == Win(c.file, 0)  n == FileNote(w, c, "NEF")
      bl == UIntArray(n, 61)  cr == UIntArray(n, 69)
  IN [Bare(r) EXCEPT !.aa = Whole(r), !.wb = NefWb(n),
        !.blacks = IF n.ok /\ bl.some THEN Four(bl.v) ELSE @,
        !.crop = IF n.ok /\ cr.some /\ Len(cr.v) >= 4 THEN SubSeq(cr.v, 1, 4) ELSE <<>>]

(* ---- Olympus ---- *)
OrfSensor(c, r) ==
  LET w == Win(c.file, 0)  n == FileNote(w, c, "ORF")  le == OrderFor(w, "ORF") = "le"
      ip == IF n.ok THEN IfdInEntry(w, n, 8256, n.le) ELSE NoDir
      red == UIntValue(n, 4119)  blue == UIntValue(n, 4120)
      rb == Fracs(ip, 256)
      bl == UIntArray(ip, 1536)
      x == UIntValue(ip, 1554)  y == UIntValue(ip, 1555)  cw == UIntValue(ip, 1556)  ch == UIntValue(ip, 1557)
      own == ip.ok /\ x.some /\ y.some /\ cw.some /\ ch.some
      f == UIntArray(ip, 4371)
      x1 == UAdd(f.v[3], 1)  y1 == UAdd(f.v[4], 1)
      crop == IF ~ip.ok \/ ~f.some \/ Len(f.v) < 4 THEN <<>>
              ELSE IF ~x1.some \/ ~y1.some THEN <<>>
              ELSE LET a == USub(x1.v, f.v[1])  b == USub(y1.v, f.v[2]) IN
                   IF ~a.some \/ ~b.some THEN <<>>
                   ELSE IF own THEN At2(<<f.v[1], f.v[2], a.v, b.v>>, x.v, y.v) ELSE <<f.v[1], f.v[2], a.v, b.v>>
      Under256(s) == {<<256 * q[2], q[1]>> : q \in s}
  IN [Bare(r) EXCEPT !.whites = Quad(4095),
        !.aa = IF own THEN <<x.v, y.v, cw.v, ch.v>> ELSE Whole(r), !.crop = crop,
        !.blacks = IF ip.ok /\ bl.some /\ Len(bl.v) \in {1, 4} THEN Four(bl.v) ELSE @,
        !.wb = IF n.ok /\ red.some /\ blue.some THEN << {<<256, red.v>>}, One, {<<256, blue.v>>}, {} >>
               ELSE IF ip.ok /\ rb.some /\ Len(rb.v) \in {2, 4} THEN << Under256(rb.v[1]), One, Under256(rb.v[2]), {} >> ELSE <<>>]

ErfRed(v) == {<<1196733, v, 0>>}
ErfBlue(v) == {<<1462576, v, 0>>}
(* ---- Epson: the factors are those that dcraw has found ---- *)
ErfSensor(c, r) ==
  LET w == Win(c.file, 0)  n == FileNote(w, c, "ERF")
      a == U16Array(n, 1024, n.le)  bl == UIntArray(n, 1025)  wb == U16Array(n, 3712, n.le)
  IN IF ~n.ok THEN Bare(r)
     ELSE [Bare(r) EXCEPT !.aa = IF a.some /\ Len(a.v) >= 4 THEN SubSeq(a.v, 1, 4) ELSE <<>>,
       !.blacks = IF bl.some THEN Four(bl.v) ELSE @,
       (* 65536 / (r * 508 * 1.078), 65536 / (b * 382 * 1.173); a 0 gives infinity *)
       !.wb = IF wb.some /\ Len(wb.v) >= 26 THEN << ErfRed(wb.v[25]), One, ErfBlue(wb.v[26]), {} >> ELSE <<>>]

(* ---- Canon CR2 ---- *)
ColourKind(s) ==
  LET n == Len(s)  v == IF s[1] > 32767 THEN s[1] - 65536 ELSE s[1] IN
  CASE n = 582 -> 1 [] n = 653 -> 2 [] n \in {1816, 1820, 1824} -> 9 [] n \in {2024, 3656} -> 10 [] n \in {3973, 3778} -> 11
    [] v = 1 -> 3 [] v \in 2..7 \/ v = 9 -> 4 [] v \in {-4, -3} -> 5 [] v \in {10, 11} -> IF n \in {1273, 1275} THEN 6 ELSE 7
    [] v \in 12..15 -> 8 [] OTHER -> 0
Version(s) == IF s[1] > 32767 THEN s[1] - 65536 ELSE s[1]
ColourBlacks(s) ==
  LET k == ColourKind(s)  v == Version(s)
      at == CASE k = 3 -> 196
              [] k = 4 -> IF v \in {4, 5} THEN 692 ELSE IF v \in {6, 7} THEN 715 ELSE IF v = 9 THEN 719 ELSE -1
              [] k = 5 -> IF v = -4 THEN 333 ELSE 264
              [] k = 6 -> 479
              [] k = 7 -> IF v = 10 THEN 504 ELSE 728
              [] k = 8 -> IF v = 14 THEN 556 ELSE 778
              [] k = 9 -> 329 [] k = 10 -> 343 [] k = 11 -> 363 [] OTHER -> -1
  IN IF at >= 0 /\ at + 4 <= Len(s) THEN SubSeq(s, at + 1, at + 4) ELSE Quad(0)
ColourWb(s) ==
  LET k == ColourKind(s)
      at == CASE k = 1 -> 25 [] k = 2 -> 24 [] k \in {3, 4, 6, 7, 8} -> 63 [] k \in {5, 9} -> 71 [] k = 10 -> 85 [] k = 11 -> 105 [] OTHER -> -1
  IN IF at >= 0 /\ at + 4 <= Len(s) THEN << {<<s[at + 2], s[at + 1]>>}, One, {<<s[at + 2], s[at + 4]>>}, {} >> ELSE <<>>
Even(v) == v + (v % 2)
SensorArea(n, le) ==
  LET s == U16Array(n, 224, le) IN
  IF s.some /\ Len(s.v) > 8
  THEN IF s.v[8] > s.v[6] /\ s.v[9] > s.v[7] THEN <<s.v[6], s.v[7], Even(s.v[8] - s.v[6]), Even(s.v[9] - s.v[7])>> ELSE <<>> ELSE <<>>
CanonAspect == << <<0, 3, 2>>, <<12, 3, 2>>, <<13, 3, 2>>, <<256, 3, 2>>, <<1, 1, 1>>, <<2, 4, 3>>, <<258, 4, 3>>, <<7, 16, 9>>, <<8, 4, 5>> >>
(* areas, aspect, levels and white balance that a Canon maker note states *)
CanonSensor(n, id, bpc) ==
  LET aa == IF n.ok THEN SensorArea(n, n.le) ELSE <<>>
      a == UIntArray(n, 154)
      hasa == n.ok /\ a.some /\ Len(a.v) >= 5
      rect == <<a.v[4], a.v[5], a.v[2], a.v[3]>>
      crop == IF ~hasa THEN <<>> ELSE IF aa = <<>> THEN rect ELSE At2(rect, aa[1], aa[2])
      cd == IF n.ok THEN U16Array(n, 16385, n.le) ELSE NoArray
      has == cd.some /\ cd.v # <<>>
      b == Builtin("CANON", id)
      blacks == IF has THEN ColourBlacks(cd.v) ELSE Quad(0)
  IN [aa |-> aa, crop |-> crop, ar |-> IF crop = <<>> THEN <<>> ELSE Ratio(CanonAspect, a.v[1]),
      blacks |-> IF blacks = Quad(0) /\ b.some THEN Quad(b.black) ELSE blacks,
      whites |-> IF b.some /\ b.white # 0 THEN Quad(b.white) ELSE Quad(MaxOf(bpc)),
      wb |-> IF has THEN ColourWb(cd.v) ELSE <<>>, wxy |-> <<>>]
Cr2Dir(w, c) == LET ds == ChainFor(w, OrderFor(w, "CR2"), c.kinds) IN IF Len(ds) < 4 THEN NoDir ELSE ds[4]
OldCanon(id) == id = ByName("CANON", "Canon EOS-1D", <<1, 0>>) \/ id = ByName("CANON", "Canon EOS-1DS", <<1, 0>>)
(* [ok, sensor, cfa], of an image whose depth is bpc *)
Cr2Raw(c, bpc) ==
  LET w == Win(c.file, 0)  n == FileNote(w, c, "CR2")  id == TiffCamera(c)
      d == Cr2Dir(w, c)
      cfa == UIntValue(d, 50656)
      b == Builtin("CANON", id)
      t == UIntArray(n, 164)
  IN IF OldCanon(id)
     THEN [ok |-> n.ok /\ UIntValue(n, 129).some, w |-> 0, h |-> 0, cfa |-> "RGGB",
           s |-> [aa |-> <<>>, crop |-> <<>>, ar |-> <<>>, wxy |-> <<>>,
                  blacks |-> IF b.some THEN Quad(b.black) ELSE Quad(0), whites |-> IF b.some /\ b.white # 0 THEN Quad(b.white) ELSE Quad(MaxOf(bpc)),
                  wb |-> IF t.some /\ Len(t.v) >= 3 THEN << {<<t.v[2], t.v[1]>>}, One, {<<t.v[2], t.v[3]>>}, {} >> ELSE <<>>]]
     ELSE [ok |-> d.ok /\ LongValue(d, 273).some /\ LongValue(d, 279).some,
           w |-> OrElse(UIntValue(d, 40962), 0), h |-> OrElse(UIntValue(d, 40963), 0),
           cfa |-> IF cfa.some /\ cfa.v = 3 THEN "GBRG" ELSE "RGGB", s |-> CanonSensor(n, id, bpc)]

(* ---- Sony ---- *)
Is(id, names) == id[1] = 8 /\ \E x \in names : Cams.sony[x] = id[2]
Cs85 == {"A200", "A300", "A350", "A700", "A850", "A900", "A230", "A290", "A330", "A380"}
Cs3 == {"SLTA33", "SLTA35", "SLTA55", "A450", "A500", "A550", "A560", "A580", "NEX3", "NEX5", "NEXC3"}
At6444 == {"SLTA58", "SLTA99", "ILCE3000", "NEX3N", "NEX5R", "NEX5T", "NEX6", "RX100", "RX1", "RX1R", "RX100M2",
           "RX0", "RX1RM2", "RX10M2", "RX10M3", "RX100M4", "RX100M5", "ILCE6300", "ILCE6500", "ILCE7RM2", "ILCE7SM2", "ILCA99M2"}
At6488 == {"RX10", "RX100M3", "ILCE7", "ILCE7R", "ILCE7S", "ILCE7M2", "ILCE5000", "ILCE5100", "ILCE6000", "ILCEQX1", "ILCA68", "ILCA77M2"}
At6284 == {"ILCE6100", "ILCE6400", "ILCE6600", "ILCE7C", "ILCE7M3", "ILCE7RM3", "ILCE7RM4", "ILCE9", "ILCE9M2", "RX0M2", "RX10M4", "RX100M6",
           "RX100M5A", "RX100M7", "HX99", "ZV1", "ZV1M2", "ZVE10"}
(* the maker's cipher: the cube modulo 249 *)
Cubed(i) == (((i * i) % 249) * i) % 249
Decipher(v) == IF v > 248 THEN v ELSE CHOOSE i \in 0..248 : Cubed(i) = v
SonyAspect(n, id) ==
  LET cs == U16Array(n, 276, FALSE)  c3 == ByteArray(n, 276)  x == ByteArray(n, 8208)
      at(o) == IF ~x.some \/ Len(x.v) <= o THEN <<>>
               ELSE Ratio(<< <<0, 16, 9>>, <<1, 4, 3>>, <<2, 3, 2>>, <<3, 1, 1>> >>, Decipher(x.v[o + 1]))
  IN IF ~n.ok THEN <<>>
     ELSE IF Is(id, Cs85) THEN IF cs.some /\ Len(cs.v) > 85 THEN Ratio(<< <<1, 3, 2>>, <<2, 16, 9>> >>, cs.v[86]) ELSE <<>>
     ELSE IF Is(id, Cs3) THEN IF c3.some /\ Len(c3.v) > 10 THEN Ratio(<< <<4, 3, 2>>, <<8, 16, 9>> >>, c3.v[11]) ELSE <<>>
     ELSE IF Is(id, At6444) THEN at(6444) ELSE IF Is(id, At6488) THEN at(6488) ELSE IF Is(id, At6284) THEN at(6284) ELSE <<>>
ArwSensor(c, r) ==
  LET w == Win(c.file, 0)  n == FileNote(w, c, "ARW")  d == RawDir(w, c, "ARW")
      id == TiffCamera(c)
      b == BuiltinFor("ARW", id)
      o == UIntArray(d, 29895)  s == UIntArray(d, 29896)
      bl == UIntArray(d, 29456)  wh == UIntArray(d, 50717)  wb == IntArray(d, 29459)
  IN [Bare(r) EXCEPT !.aa = Whole(r), !.ar = SonyAspect(n, id),
        !.crop = IF o.some /\ s.some /\ Len(o.v) >= 2 /\ Len(s.v) >= 2 THEN <<o.v[2], o.v[1], s.v[1], s.v[2]>> ELSE <<>>,
        !.blacks = IF bl.some THEN Four(bl.v) ELSE IF b.some THEN Quad(b.black) ELSE @,
        !.whites = IF wh.some THEN Four(wh.v) ELSE IF b.some /\ b.white # 0 THEN Quad(b.white) ELSE @,
        !.wb = IF wb.some /\ Len(wb.v) >= 4 THEN << {<<wb.v[2], wb.v[1]>>}, One, {<<wb.v[2], wb.v[4]>>}, {} >> ELSE <<>>]

SensorOf(c, r) ==
  CASE c.hint = "DNG" -> DngSensor(c, r) [] c.hint = "PEF" -> PefSensor(c, r) [] c.hint = "NEF" -> NefSensor(c, r)
    [] c.hint = "ORF" -> OrfSensor(c, r) [] c.hint = "ERF" -> ErfSensor(c, r) [] c.hint = "ARW" -> ArwSensor(c, r)
TiffSensorVerdict(s, o) ==
  LET v == SensorVerdict(s, o) IN
  IF v # "" THEN v ELSE IF ~WbOk(s.wxy, o.wxy) THEN "white point " \o ToString(o.wxy) \o " instead of " \o ToString(s.wxy) ELSE ""
=============================================================================
