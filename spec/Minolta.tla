------------------------------ MODULE Minolta ------------------------------
(* Minolta MRW files: a header of blocks, then the raw data.                 *)
EXTENDS Sensor, MetaQ

bPRD == <<80, 82, 68>>  bTTW == <<84, 84, 87>>  bWBG == <<87, 66, 71>>

(* the blocks of a header whose size is n, from position p: [name, at] where *)
(* at is the position of the content.  A header that is cut is no header.    *)
RECURSIVE BlocksFrom(_, _, _, _)
BlocksFrom(w, le, p, n) ==
  IF n >= 0 /\ p >= n THEN [ok |-> TRUE, bs |-> <<>>]
  ELSE IF ~Has(w, p, 8) THEN [ok |-> FALSE, bs |-> <<>>]
  ELSE LET len == U32(w, le, p + 4)
           (* a block that goes beyond the file is the last one *)
           next == IF len < 0 \/ len > WLen(w) THEN IF n < 0 THEN -1 ELSE 0 ELSE p + len + 8
           r == IF next = -1 THEN [ok |-> FALSE, bs |-> <<>>]
                ELSE IF next = 0 THEN [ok |-> (len < 0 \/ len >= n - p - 8), bs |-> <<>>]
                ELSE BlocksFrom(w, le, next, n)
       IN [ok |-> r.ok, bs |-> <<[name |-> Sub(w, p + 1, 3), at |-> p + 8]>> \o r.bs]
BlockOf(h, name) ==
  LET c == SelectSeq(h.bs, LAMBDA b : b.name = name)
  IN IF c = <<>> THEN -1 ELSE c[Len(c)].at
(* the header: [ok, n: its size, prd, ttw, wbg: content position or -1] *)
MrwHeader(w, le) ==
  IF ~Has(w, 0, 8) THEN [ok |-> FALSE]
  ELSE LET n == U32(w, le, 4)
           h == BlocksFrom(w, le, 8, n)
           prd == BlockOf(h, bPRD)
       IN IF ~h.ok \/ (prd # -1 /\ ~Has(w, prd, 8)) THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, n |-> n, prd |-> prd, ttw |-> BlockOf(h, bTTW), wbg |-> BlockOf(h, bWBG)]

(* the description of the image in the PRD block *)
MrwInfo(w, le, h) ==
  IF h.prd = -1 \/ ~Has(w, h.prd, 18) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, h |-> U16(w, le, h.prd + 8), w |-> U16(w, le, h.prd + 10), bpc |-> B(w, h.prd + 17),
        packed |-> Has(w, h.prd + 18, 1) /\ B(w, h.prd + 18) = 89,
        cfa |-> IF Has(w, h.prd + 22, 2) /\ U16(w, le, h.prd + 22) = 4 THEN Pattern(<<1, 2, 0, 1>>) ELSE Pattern(<<0, 1, 1, 2>>)]
(* coefficient i of the WBG block as a fraction *)
Coef(w, le, at, i) == <<64 * Pow2(Min2(B(w, at + i), 20)), U16(w, le, at + 4 + 2 * i)>>
MrwWb(w, le, h, info) ==
  IF h.wbg = -1 \/ ~Has(w, h.wbg, 12) THEN <<>>
  ELSE LET c(i) == Coef(w, le, h.wbg, i) IN
       IF info.cfa.name = "GBRG" THEN <<{c(2)}, {c(0)}, {c(1)}, {}>> ELSE <<{c(0)}, {c(1)}, {c(3)}, {}>>

(* black and white level of the models, by version of the PRD block *)
Versions == << <<"21860002", 4091>>, <<"21810002", 4091>>, <<"27730001", 3965>>, <<"27660001", 3965>>,
               <<"27790001", 3965>>, <<"27780001", 3965>>, <<"27820001", 3979>>, <<"27200001", 3983>>, <<"27470002", 0>> >>
VersionText(w, h) == IF h.prd = -1 THEN "" ELSE LET s == Sub(w, h.prd, 8) IN IF Printable(s) THEN Text(s) ELSE "?"
WhiteOf(v) == LET i == SelectInSeq(Versions, LAMBDA x : x[1] = v) IN IF i = 0 THEN 0 ELSE Versions[i][2]

MrwRaw(c, skip) ==
  LET w == Win(c.file, 0)
      h == MrwHeader(w, FALSE)
      i == MrwInfo(w, FALSE, h)
      pix == IF i.w # 0 /\ i.h > 500000000 \div i.w THEN 500000000 ELSE i.w * i.h
      from == IF h.n < 0 \/ h.n > WLen(w) THEN WLen(w) ELSE Min2(h.n + 8, WLen(w))
      bytes == Cut(w, from, IF i.packed THEN pix + (pix + 1) \div 2 ELSE 2 * pix)
      base == [ok |-> TRUE, w |-> i.w, h |-> i.h, bpc |-> i.bpc, comp |-> 0, tsz |-> <<>>,
               photom |-> 32803, cfa |-> i.cfa, lin |-> <<>>]
      u == Unpack(bytes, Enc(12, TRUE, FALSE), pix, 1)
  IN IF ~h.ok \/ ~i.ok THEN Failed
     ELSE IF i.packed /\ skip THEN base @@ [type |-> "COMP_RAW", dk |-> "8", data |-> bytes]
     ELSE IF i.packed THEN IF u.ok THEN base @@ [type |-> "RAW", dk |-> "16", data |-> u.v] ELSE Failed
     ELSE IF Len(bytes) < 2 * pix THEN Failed
     ELSE base @@ [type |-> "RAW", dk |-> "16", data |-> Words(bytes, FALSE)]
MrwSensor(c) ==
  LET w == Win(c.file, 0)
      h == MrwHeader(w, FALSE)
      i == MrwInfo(w, FALSE, h)
  IN [aa |-> <<>>, crop |-> <<>>, ar |-> <<>>, blacks |-> Quad(0), whites |-> Quad(WhiteOf(VersionText(w, h))),
      wb |-> MrwWb(w, FALSE, h, i)]

(* the TIFF structure of the TTW block is a file of its own *)
TtwWin(c) == LET w == Win(c.file, 0)  h == MrwHeader(w, FALSE) IN
  IF ~h.ok \/ h.ttw = -1 THEN Win(c.file, Len(c.file)) ELSE Win(c.file, h.ttw)
MrwDirs(c) == LET t == TtwWin(c) IN ChainFor(t, Order(t), <<"Main">>)
MrwMain(c) == LET ds == MrwDirs(c) IN IF ds = <<>> THEN NoDir ELSE ds[1]
MrwExif(c) == IF MrwMain(c).ok THEN ExifOf(TtwWin(c), MrwMain(c)) ELSE NoDir
MrwNote(c) == IF MrwExif(c).ok THEN NoteOf(TtwWin(c), MrwExif(c), "MRW") ELSE NoNote

(* the preview of the maker note, whose first byte is not that of a JPEG *)
MrwPreviews(c) ==
  LET t == TtwWin(c)
      n == MrwNote(c)
      old == n.ok /\ HasTag(n, 129)
      off == IF old THEN IF Entry(n, 129).type = TUndef /\ Entry(n, 129).off # -1 THEN Entry(n, 129).off ELSE -1
             ELSE OrElse(UIntValue(n, 136), 0)
      len == IF old THEN Entry(n, 129).count ELSE OrElse(UIntValue(n, 137), 0)
      b == Cut(t, off, len)
  IN IF ~n.ok \/ (~old /\ (off = 0 \/ len = 0)) \/ b = <<>> THEN <<>>
     ELSE <<[At(640, 480, "JPEG", -2, Len(b)) EXCEPT !.bytes = <<255>> \o SubSeq(b, 2, Len(b))]>>
=============================================================================
