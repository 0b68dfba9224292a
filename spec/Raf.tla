-------------------------------- MODULE Raf --------------------------------
(* Fujifilm RAF files: a header that tells where the JPEG preview, the       *)
(* description of the image and the raw data are.                            *)
EXTENDS Sensor, MetaQ, Fuji

sRaf == <<70, 85, 74, 73, 70, 73, 76, 77, 67, 67, 68, 45, 82, 65, 87, 32>>
RafHeader(w) ==
  IF ~Has(w, 0, 108) THEN [ok |-> FALSE]
  ELSE LET at(p) == U32(w, FALSE, p)
           far == at(84) < 0 \/ at(84) > 120
       IN IF Sub(w, 0, 16) # sRaf \/ (far /\ ~Has(w, 120, 16)) THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, model |-> CStr(Sub(w, 28, 32)), jpeg |-> at(84), jlen |-> at(88),
                meta |-> at(92), mlen |-> at(96), cfa |-> at(100), clen |-> at(104)]

(* the description: entries <<tag, size, position>>; one that is cut is none *)
RECURSIVE MetaFrom(_, _, _)
MetaFrom(w, p, n) ==
  IF n = 0 THEN [ok |-> TRUE, es |-> <<>>]
  ELSE IF ~Has(w, p, 4) THEN [ok |-> FALSE, es |-> <<>>]
  ELSE LET sz == U16(w, FALSE, p + 2) IN
       IF ~Has(w, p + 4, sz) THEN [ok |-> FALSE, es |-> <<>>]
       ELSE LET r == MetaFrom(w, p + 4 + sz, n - 1)
            IN [ok |-> r.ok, es |-> <<[tag |-> U16(w, FALSE, p), sz |-> sz, at |-> p + 4]>> \o r.es]
RafMeta(w, h) ==
  IF h.meta = 0 \/ h.mlen = 0 \/ ~Has(w, h.meta, 4) THEN [ok |-> FALSE, es |-> <<>>]
  ELSE LET n == U32(w, FALSE, h.meta) IN
       IF n < 0 \/ n > WLen(w) THEN [ok |-> FALSE, es |-> <<>>] ELSE MetaFrom(w, h.meta + 4, n)
Found(m, tag) == \E i \in 1..Len(m.es) : m.es[i].tag = tag
Item(m, tag) == LET s == SelectSeq(m.es, LAMBDA e : e.tag = tag) IN s[Len(s)]
IsInt(m, tag) == Found(m, tag) /\ Item(m, tag).sz = 4
IsBytes(m, tag) == Found(m, tag) /\ Item(m, tag).sz # 4
(* the two halves of an integer *)
Hi(w, m, tag) == U16(w, FALSE, Item(m, tag).at)
Lo(w, m, tag) == U16(w, FALSE, Item(m, tag).at + 2)

tSize == 256  tTop == 272  tDims == 273  tRatio == 277  tCropped == 279  tCropTop == 280  tCropDims == 281
tInfo == 304  tPattern == 305  tWb == 12272  tOut == 49152
RectAt(w, m, top, dims) == IF IsInt(m, top) /\ IsInt(m, dims) THEN <<Lo(w, m, top), Hi(w, m, top), Lo(w, m, dims), Hi(w, m, dims)>> ELSE <<>>

(* the TIFF structure in front of the raw data of the newer ones *)
RafTiff(w, h, m) == IF Found(m, tWb) \/ h.cfa <= 0 \/ h.clen = 0 \/ h.cfa > WLen(w) THEN Win(<<>>, 0) ELSE Win(w.f, w.o + h.cfa)
RafRawDir(w, h, m) == LET t == RafTiff(w, h, m)  d == Dir0(t) IN IF ~d.ok THEN NoDir ELSE IfdInEntry(t, d, 61440, Order(t) = "le")

(* what the file says of its raw data: [ok, off, len, bps, blacks, wb, ...] *)
RafPayload(w, h, m) ==
  LET has == Order(RafTiff(w, h, m)) # "bad"
      d == RafRawDir(w, h, m)
      comp == (Hi(w, m, tInfo) \div 8) % 2 = 1
      o == LongValue(d, 61447)  l == LongValue(d, 61448)  b == LongValue(d, 61443)
      bl == UIntArray(d, 61450)  wb == UIntArray(d, 61454)
      far == IF h.clen < 0 THEN h.clen ELSE IF h.clen <= 2048 THEN 0 ELSE h.clen - 2048
  IN IF ~has THEN [off |-> IF h.cfa < 0 \/ h.cfa > WLen(w) THEN -1 ELSE h.cfa + 2048, len |-> far,
                   bps |-> IF comp THEN 12 ELSE 16, blacks |-> <<0, 0, 0, 0>>, wb |-> <<>>]
     ELSE IF ~d.ok THEN [off |-> 0, len |-> 0, bps |-> 12, blacks |-> <<>>, wb |-> <<>>]
     ELSE [off |-> IF ~o.some THEN 0 ELSE IF o.v < 0 \/ o.v > WLen(w) THEN -1 ELSE o.v + h.cfa,
           len |-> OrElse(l, 0), bps |-> OrElse(b, 0) % 65536, blacks |-> IF bl.some THEN bl.v ELSE <<0, 0, 0, 0>>,
           wb |-> IF wb.some /\ Len(wb.v) >= 3 THEN wb.v ELSE <<>>]
(* samples of 14 bits, in 32 bit little endian words from the high bits on *)
Swap32(s) == [i \in 1..(4 * (Len(s) \div 4)) |-> s[4 * ((i - 1) \div 4) + 4 - ((i - 1) % 4)]]

(* by the name of the camera: which corner is red *)
sX10 == <<88, 49, 48>>  sXF1 == <<88, 70, 49>>  sXS1 == <<88, 45, 83, 49>>
RafCfa(w, h, m) ==
  IF IsBytes(m, tPattern)
  THEN LET p == Item(m, tPattern) IN IF p.sz # 36 THEN NoPattern ELSE Pattern(Reverse(Sub(w, p.at, 36)))
  ELSE Pattern(IF h.model \in {sX10, sXF1, sXS1} THEN <<2, 1, 1, 0>> ELSE <<0, 1, 1, 2>>)
RafOut(w, m, x, y) ==
  IF ~IsBytes(m, tOut) THEN <<x, y>>
  ELSE LET e == Item(m, tOut)
           v == [i \in 1..(e.sz \div 4) |-> U32(w, TRUE, e.at + 4 * (i - 1))]
           k == SelectInSeq(v, LAMBDA a : a >= 0 /\ a < x)
       IN IF k = 0 \/ k = Len(v) THEN <<x, y>> ELSE <<v[k], v[k + 1]>>

RafRaw(c, skip) ==
  LET w == Win(c.file, 0)
      h == RafHeader(w)
      m == RafMeta(w, h)
      st == IF Found(m, tSize) THEN tSize ELSE tDims
      x == Lo(w, m, st)  y == Hi(w, m, st)
      cfa == RafCfa(w, h, m)
      p == RafPayload(w, h, m)
      pix == Pixels(x, y)
      need == IF pix < 0 \/ (p.bps > 0 /\ pix > 2000000000 \div p.bps) THEN 2147483647 ELSE (p.bps * pix) \div 8
      packed == p.len >= 0 /\ p.len < need
      bytes == TLCEval(Cut(w, p.off, p.len))
      base == [ok |-> TRUE, w |-> x, h |-> y, comp |-> 0, tsz |-> <<>>, photom |-> 32803, cfa |-> cfa, lin |-> <<>>]
      whole == p.len >= 0 /\ Len(bytes) = p.len
      plain(u) == IF u.ok THEN base @@ [type |-> "RAW", dk |-> "16", bpc |-> 16, data |-> u.v] ELSE Failed
      as8 == base @@ [type |-> "COMP_RAW", dk |-> "8", bpc |-> p.bps, data |-> bytes]
      img == TLCEval(FujiImage(bytes, x, y, cfa.v))
      w14 == Ceil(pix * 14, 32) * 4
  IN IF ~h.ok THEN Failed ELSE IF ~m.ok THEN Failed
     ELSE IF ~IsInt(m, st) \/ ~IsInt(m, tInfo) \/ ~cfa.some \/ p.off = 0 \/ p.len = 0 THEN Failed
     ELSE IF packed /\ (skip \/ img.ok # "yes") THEN as8
     ELSE IF packed THEN base @@ [type |-> "RAW", dk |-> "16", bpc |-> 16, data |-> img.v]
     ELSE IF p.len = 2 * pix THEN plain([ok |-> whole, v |-> Words(bytes, TRUE)])
     ELSE IF p.bps = 14 THEN IF ~whole \/ p.len < w14 THEN Failed
                             ELSE plain(Unpack(Swap32(SubSeq(bytes, 1, w14)), Enc(14, TRUE, FALSE), pix, 1))
     ELSE IF p.bps \notin {10, 12} THEN Failed
     ELSE LET rl == RowLen(Enc(p.bps, TRUE, FALSE), x) * y IN
          IF (p.len >= 0 /\ p.len < rl) \/ p.off < 0 \/ ~Has(w, p.off, rl) THEN Failed
          ELSE plain(Unpack(Sub(w, p.off, rl), Enc(p.bps, p.bps # 12, FALSE), x, y))

(* the codes run out of a strip: what the image is then is not said *)
Unsaid(c) ==
  LET w == Win(c.file, 0)
      h == RafHeader(w)
      m == RafMeta(w, h)
      st == IF Found(m, tSize) THEN tSize ELSE tDims
      p == RafPayload(w, h, m)
  IN FujiImage(TLCEval(Cut(w, p.off, p.len)), Lo(w, m, st), Hi(w, m, st), RafCfa(w, h, m).v).ok = "any"
(* ---- the sensor ---- *)
(* the sizes that a by b cut to the ratio r can have: floor, and, where that *)
(* is exact, the one below that floating point may end up on                 *)
Cuts(n, d) == IF n % d = 0 THEN {n \div d, n \div d - 1} ELSE {n \div d}
CropOk(from, r, o) ==
  IF from = <<>> \/ r = <<>> THEN o = <<>>
  ELSE IF from[3] = 0 \/ from[4] = 0 \/ r[1] = 0 \/ r[2] = 0 THEN TRUE
  ELSE LET sizes == IF from[3] * r[2] > from[4] * r[1] THEN {<<s, from[4]>> : s \in Cuts(from[4] * r[1], r[2])}
                    ELSE {<<from[3], s>> : s \in Cuts(from[3] * r[2], r[1])}
       IN \E s \in sizes : o = <<from[1] + Abs(from[3] - s[1]) \div 2, from[2] + Abs(from[4] - s[2]) \div 2, s[1], s[2]>>
RafVerdict(c, o) ==
  LET w == Win(c.file, 0)
      h == RafHeader(w)
      m == RafMeta(w, h)
      p == RafPayload(w, h, m)
      aa == RectAt(w, m, tTop, tDims)
      from == IF IsInt(m, tCropped) THEN IF Lo(w, m, tCropped) % 2 = 1 THEN RectAt(w, m, tCropTop, tCropDims) ELSE aa ELSE aa
      ar == IF IsInt(m, tRatio) THEN <<Lo(w, m, tRatio), Hi(w, m, tRatio)>> ELSE <<>>
      g(at) == LET e == Item(m, tWb) IN U16(w, FALSE, e.at + at)
      old == IsBytes(m, tWb) /\ Item(m, tWb).sz >= 8
      wb == IF old THEN <<{<<g(0), g(2)>>}, {<<1, 1>>}, {<<g(0), g(6)>>}, {}>>
            ELSE IF p.wb # <<>> THEN <<{<<p.wb[1], p.wb[2]>>}, {<<1, 1>>}, {<<p.wb[1], p.wb[3]>>}, {}>> ELSE <<>>
      b == p.blacks
      s == [aa |-> aa, crop |-> o.crop, ar |-> ar,
            blacks |-> IF Len(b) = 4 THEN b ELSE IF b = <<>> THEN Quad(0) ELSE Quad(b[1]), whites |-> Quad(MaxOf(p.bps)), wb |-> wb]
  IN IF ~CropOk(from, ar, o.crop) THEN "user crop " \o ToString(o.crop)
     ELSE IF o.out # RafOut(w, m, o.w, o.h) THEN "output size " \o ToString(o.out)
     ELSE SensorVerdict(s, o)

(* ---- the JPEG preview, and the metadata in it ---- *)
RafJpeg(c) == LET w == Win(c.file, 0)  h == RafHeader(w) IN IF ~h.ok THEN NoFrame ELSE FrameAt(w, h.jpeg)
RafExif(c) == LET f == RafJpeg(c) IN IF ~f.ok \/ f.exif = -1 THEN Win(<<>>, 0) ELSE ExifWin(Win(c.file, 0), f)
RafDirs(c) == Chain(RafExif(c), <<"Main", "Other">>)
RafMain(c) == LET ds == RafDirs(c) IN IF ds = <<>> THEN NoDir ELSE ds[1]
RafExifDir(c) == IF RafMain(c).ok THEN ExifOf(RafExif(c), RafMain(c)) ELSE NoDir
RafNote(c) == IF RafExifDir(c).ok THEN NoteOf(RafExif(c), RafExifDir(c), "RAF") ELSE NoNote
RafPreviews(c) ==
  LET w == Win(c.file, 0)
      h == RafHeader(w)
      f == RafJpeg(c)
      ds == RafDirs(c)
      o == IF Len(ds) < 2 THEN None ELSE LongValue(ds[2], 513)
      l == IF Len(ds) < 2 THEN None ELSE LongValue(ds[2], 514)
      b == IF o.some /\ l.some THEN Cut(RafExif(c), o.v, l.v) ELSE <<>>
      tf == FrameAt(Win(b, 0), 0)
  IN IF ~h.ok THEN <<>>
     ELSE (IF f.ok THEN <<At(f.w, f.h, "JPEG", h.jpeg, h.jlen)>> ELSE <<>>)
          \o (IF tf.ok THEN <<[At(tf.w, tf.h, "JPEG", -2, Len(b)) EXCEPT !.bytes = b]>> ELSE <<>>)
=============================================================================
