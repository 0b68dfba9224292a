-------------------------------- MODULE Ciff --------------------------------
(* Canon CIFF files: heaps of records, and the Exif metadata they stand for. *)
EXTENDS Previews, MetaQ, Build

(* ---- heaps ---- *)
(* A heap is a range of the file; its last four bytes say where its table of *)
(* records is.  A record: [code: its type without the storage bits,          *)
(* in: is it inside of the table, at: position of its value, len]            *)
NoHeap == [ok |-> FALSE, rs |-> <<>>]
RecordAt(w, le, p, base) ==
  LET t == U16(w, le, p)  in == t \div 16384 # 0
      o == U32(w, le, p + 6)
  IN [code |-> t % 16384, in |-> in, at |-> IF in THEN p + 2 ELSE IF o < 0 \/ o > 1000000000 THEN -1 ELSE o + base,
      len |-> IF in THEN 8 ELSE U32(w, le, p + 2)]
Heap(w, le, pos, len) ==
  IF len < 4 \/ pos < 0 \/ len > WLen(w) \/ pos > WLen(w) - len THEN NoHeap
  ELSE LET start == U32(w, le, pos + len - 4) IN
       IF start < 0 \/ start > len - 4 \/ ~Has(w, pos + start, 2) THEN NoHeap
       ELSE LET n == U16(w, le, pos + start)
                m == Min2(n, (WLen(w) - pos - start - 2) \div 10)
            IN [ok |-> TRUE, rs |-> [i \in 1..m |-> RecordAt(w, le, pos + start + 2 + 10 * (i - 1), pos)]]
(* the record with a code: a later one replaces an earlier one *)
NoRec == [ok |-> FALSE, in |-> FALSE, at |-> -1, len |-> 0]
Rec(h, code) ==
  LET c == SelectSeq(h.rs, LAMBDA r : r.code = code)
  IN IF c = <<>> THEN NoRec ELSE c[Len(c)] @@ [ok |-> TRUE]
(* its value: the bytes, when they are all in the file *)
RecOk(w, r) == r.ok /\ Has(w, r.at, r.len)
RecBytes(w, r) == Sub(w, r.at, r.len)
SubHeap(w, le, h, code) ==
  LET r == Rec(h, code) IN IF ~r.ok \/ r.in THEN NoHeap ELSE Heap(w, le, r.at, r.len)

kRaw == 8197  kJpeg == 8199  kProps == 12298  kImageInfo == 6160  kCamera == 10247  kExif == 12299
kMakeModel == 2058  kOwner == 2064  kSerial == 6155  kTime == 6158  kSettings == 4141  kFocal == 4137
kSensor == 4145  kDecoder == 6197  kModelId == 6196
HeapCodes == {10244, 10247, 12290, 12291, 12292, 12298, 12299}

(* ---- the file ---- *)
CiffLe(w) == IF ~Has(w, 0, 18) THEN "bad"
             ELSE IF Sub(w, 0, 2) = <<73, 73>> THEN "le" ELSE IF Sub(w, 0, 2) = <<77, 77>> THEN "be" ELSE "bad"
(* everything the queries need: [ok, w, le, root, props, camera, exif] *)
CiffOf(c) ==
  LET w == Win(c.file, 0)  o == CiffLe(w)  le == o = "le"
      n == U32(w, le, 2)
      root == IF n < 0 \/ n > WLen(w) THEN NoHeap ELSE Heap(w, le, n, WLen(w) - n)
      props == SubHeap(w, le, root, kProps)
  IN IF o = "bad" THEN [ok |-> FALSE, w |-> w, le |-> FALSE, root |-> NoHeap, props |-> NoHeap, camera |-> NoHeap, exif |-> NoHeap]
     ELSE [ok |-> TRUE, w |-> w, le |-> le, root |-> root, props |-> props,
           camera |-> SubHeap(w, le, props, kCamera), exif |-> SubHeap(w, le, props, kExif)]

(* the description of the image *)
ImageInfo(f) ==
  LET r == Rec(f.props, kImageInfo)  v(i) == U32(f.w, f.le, r.at + 4 * i) IN
  IF ~r.ok \/ r.in \/ ~Has(f.w, r.at, 28) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, w |-> v(0), h |-> v(1), rot |-> v(3), bits |-> v(4)]
(* the strings of a record: its value cut at every NUL *)
Parts(s) == FoldLeft(LAMBDA a, c : IF c = 0 THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, c)], <<<<>>>>, s)
MakeModel(f, i) ==
  LET r == Rec(f.camera, kMakeModel) IN
  IF r.in \/ ~RecOk(f.w, r) THEN [ok |-> FALSE]
  ELSE LET p == Parts(RecBytes(f.w, r)) IN IF Len(p) < i THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> p[i]]
(* setting i of the camera settings, or d when they are not there *)
Setting(f, i, d) ==
  LET r == Rec(f.exif, kSettings) IN
  IF r.in \/ ~RecOk(f.w, r) THEN d ELSE IF 2 * i + 2 > r.len THEN d ELSE U16(f.w, f.le, r.at + 2 * i)
HasSettings(f) == LET r == Rec(f.exif, kSettings) IN ~r.in /\ RecOk(f.w, r)

(* ---- the Exif entries ---- *)
Ent(tag, type, count, data) == [tag |-> tag, type |-> type, count |-> count, off |-> -1, raw |-> PadTo(SubSeq(data, 1, Min2(4, Len(data))), 4), data |-> data]
StrE(tag, s) == Ent(tag, TAscii, Len(Utf8(s)), s)
ShortE(tag, v, le) == Ent(tag, TShort, 1, P16(v, le))
(* 32 bits in two's complement *)
Q32(v, le) == LET x == IF v >= 0 THEN v ELSE (v + 2147483647) + 1
                  a == P32(x, FALSE)
                  b == IF v >= 0 THEN a ELSE [a EXCEPT ![1] = @ + 128]
              IN IF le THEN Reverse(b) ELSE b
LongE(tag, v, le) == Ent(tag, TLong, 1, Q32(v, le))
ExifRotation(r) == CASE r = 0 -> 1 [] r = 90 -> 6 [] r = 180 -> 3 [] r = 270 -> 8 [] OTHER -> 0
MainDir(f) ==
  LET i == ImageInfo(f)  make == MakeModel(f, 1)  model == MakeModel(f, 2)
  IN [ok |-> f.ok, le |-> f.le, kind |-> "Main", base |-> 0, next |-> 0,
      es |-> (IF ~i.ok THEN <<>> ELSE <<LongE(256, i.w, f.le), LongE(257, i.h, f.le), ShortE(258, i.bits % 65536, f.le)>>)
             \o (IF make.ok THEN <<StrE(271, make.v)>> ELSE <<>>)
             \o (IF model.ok THEN <<StrE(272, model.v)>> ELSE <<>>)
             \o (IF i.ok THEN <<ShortE(274, ExifRotation(i.rot), f.le)>> ELSE <<>>)]

(* the date of t seconds after 1970, as "YYYY:MM:DD HH:MM:SS" *)
D2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Civil(hi, lo) ==          \* t = 65536 hi + lo
  LET half == 32768 * hi + (lo \div 2)
      s == 2 * (half % 43200) + (lo % 2)
      z == (half \div 43200) + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == ((doe - (doe \div 1460)) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - ((365 * yoe) + (yoe \div 4) - (yoe \div 100))
      mp == ((5 * doy) + 2) \div 153
      d == (doy - (((153 * mp) + 2) \div 5)) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + (era * 400) + (IF m <= 2 THEN 1 ELSE 0)
  IN D2(y \div 100) \o D2(y % 100) \o <<58>> \o D2(m) \o <<58>> \o D2(d) \o <<32>>
     \o D2(s \div 3600) \o <<58>> \o D2((s \div 60) % 60) \o <<58>> \o D2(s % 60)
(* hexadecimal text of four bytes, the high one first *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(b) == LET ds == Concat([i \in 1..4 |-> <<b[i] \div 16, b[i] % 16>>])
              k == SelectInSeq(ds, LAMBDA d : d # 0)
          IN [i \in 1..(9 - (IF k = 0 THEN 8 ELSE k)) |-> HexDigit(ds[i + ((IF k = 0 THEN 8 ELSE k) - 1)])]
Flash(v) == CASE v = 1 -> 25 [] v = 2 -> 1 [] v \in {3, 5} -> 65 [] OTHER -> 0
Metering(v) == CASE v = 1 -> 3 [] v = 2 -> 1 [] v = 3 -> 5 [] v = 4 -> 6 [] v = 5 -> 2 [] OTHER -> 0
Program(v) == CASE v = 1 -> 2 [] v = 2 -> 4 [] v = 3 -> 3 [] v = 4 -> 1 [] v = 5 -> 5 [] OTHER -> 0

(* the entries record r stands for *)
EntriesOf(f, r) ==
  LET whole == RecOk(f.w, r)  le == f.le IN
  CASE r.code = kOwner /\ whole -> <<StrE(42032, Parts(RecBytes(f.w, r))[1])>>
    [] r.code = kSerial /\ whole /\ r.len >= 4 ->
         <<StrE(42033, Hex(LET b == Sub(f.w, r.at, 4) IN IF le THEN Reverse(b) ELSE b))>>
    [] r.code = kTime /\ whole /\ r.len >= 4 ->
         LET d == Civil(U16(f.w, le, IF le THEN r.at + 2 ELSE r.at), U16(f.w, le, IF le THEN r.at ELSE r.at + 2)) IN <<StrE(36867, d), StrE(36868, d)>>
    [] r.code = kFocal /\ whole /\ r.len >= 4 ->
         LET u == Setting(f, 25, 1) IN
         <<Ent(37386, TRat, 1, P32(U16(f.w, le, r.at + 2), le) \o P32(IF u = 0 THEN 1 ELSE u, le))>>
    [] r.code = kSettings /\ HasSettings(f) ->
         (IF Setting(f, 1, 0) = 1 THEN <<ShortE(41996, 1, le)>> ELSE <<>>)
         \o <<ShortE(37385, Flash(Setting(f, 4, 0)), le), ShortE(37383, Metering(Setting(f, 17, 0)), le),
              ShortE(34850, Program(Setting(f, 20, 0)), le)>>
    [] OTHER -> <<>>
(* the last record of each code, those of heaps in their place; heaps nest   *)
(* at most that deep                                                         *)
Uniq(h) == LET n == Len(h.rs) IN
  SelectSeq([i \in 1..n |-> h.rs[i] @@ [ok |-> \A j \in (i + 1)..n : h.rs[j].code # h.rs[i].code]], LAMBDA r : r.ok)
RECURSIVE Entries(_, _, _)
Entries(f, h, depth) ==
  LET u == SortSeq(Uniq(h), LAMBDA a, b : a.code < b.code) IN
  Concat([i \in 1..Len(u) |->
    IF u[i].code \in HeapCodes
    THEN IF depth >= 4 \/ u[i].in THEN <<>> ELSE Entries(f, Heap(f.w, f.le, u[i].at, u[i].len), depth + 1)
    ELSE EntriesOf(f, u[i])])
ExifDir(f) ==
  [ok |-> f.ok, le |-> f.le, kind |-> "Exif", base |-> 0, next |-> 0,
   es |-> FoldLeft(LAMBDA a, e : InsertEntry(a, e), <<>>, Entries(f, f.props, 0) \o Entries(f, f.exif, 0))]
CiffDirs(f) == IF f.ok THEN <<MainDir(f), ExifDir(f)>> ELSE <<>>

(* ---- the preview ---- *)
CiffPreviews(f) ==
  LET r == Rec(f.root, kJpeg)  p == FrameAt(f.w, r.at) IN
  IF ~r.ok \/ r.in THEN <<>>
  ELSE IF ~p.ok THEN <<>> ELSE IF p.w = 0 \/ p.h = 0 THEN <<>> ELSE <<At(p.w, p.h, "JPEG", r.at, r.len)>>
=============================================================================
