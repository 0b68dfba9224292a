------------------------------ MODULE RawTiff ------------------------------
(* Where a TIFF based raw file has its raw image, and what it says about it. *)
EXTENDS Previews, Packing

cNone == 1  cNikonPack == 32769  cPentaxPack == 32773  cOlympus == 65536
KnownComp == {1, 5, 6, 7, 8, 9, 32767, 32769, 32773, 34316, 34713, 34826, 34828, 34830, 34892, 52546, 65535, 65536}
KnownPhotom == {0, 1, 2, 4, 6, 32803, 34892, 51177, 52527}

Primary(d) == LongValue(d, 254) = Some(0)
(* the directory of the raw image *)
RawDir(w, c, ty) ==
  LET m == MainOf(w, c, ty) IN
  IF ~m.ok THEN NoDir
  ELSE IF ty \in {"ORF", "PEF", "RW2"} THEN m
  ELSE IF Primary(m) THEN m
  ELSE LET s == SelectSeq(SubIfdsOf(w, m), Primary) IN IF s = <<>> THEN NoDir ELSE s[1]

(* x * y when it is below 2^31, or -1 *)
Pixels(x, y) == IF x = 0 \/ y = 0 THEN 0
                ELSE IF x < 0 \/ y < 0 \/ y > 2147483647 \div x THEN -1 ELSE x * y
(* sum of counts, -1 when too large *)
Total(s) == FoldLeft(LAMBDA a, v : IF a < 0 \/ v < 0 \/ v > 2147483647 - a THEN -1 ELSE a + v, 0, s)
TileBytes(w, off, len) == IF Has(w, off, len) THEN Sub(w, off, len) ELSE <<>>

(* colours of the mosaic *)
PatName(p) == CASE p = <<0, 1, 1, 2>> -> "RGGB" [] p = <<1, 2, 0, 1>> -> "GBRG"
                [] p = <<2, 1, 1, 0>> -> "BGGR" [] p = <<1, 0, 2, 1>> -> "GRBG"
                [] Len(p) = 4 -> "" [] \A i \in 1..Len(p) : p[i] \in {0, 1, 2, 255} -> "NON_RGB22" [] OTHER -> ""
Pattern(p) == [some |-> PatName(p) # "", name |-> PatName(p), v |-> p]
NoPattern == [some |-> FALSE, name |-> "NONE", v |-> <<>>]
DirPattern(d) ==
  LET a == IF HasTag(d, 33422) /\ Entry(d, 33422).type \in {TByte, TUndef}
           THEN Pattern(SubSeq(Entry(d, 33422).data, 1, Entry(d, 33422).count)) ELSE NoPattern
      e == Entry(d, 41730)
      b == IF HasTag(d, 41730) /\ e.count >= 8 /\ Len(e.data) >= 8
           THEN IF e.data[1] # 2 /\ e.data[2] # 2 THEN NoPattern ELSE Pattern(SubSeq(e.data, 5, 8)) ELSE NoPattern
  IN IF a.some THEN a ELSE b
Mosaic(w, d, exif) ==
  LET a == DirPattern(d)  b == IF exif.ok THEN DirPattern(exif) ELSE NoPattern
  IN IF a.some THEN a ELSE IF b.some THEN b ELSE NoPattern

Failed == [ok |-> FALSE]
WordArray(d, tag) == IF HasTag(d, tag) /\ Entry(d, tag).type = TShort THEN U16s(Entry(d, tag), d.le) ELSE <<>>

(* the raw image of directory d: [ok, w, h, bpc, type, dk, data, tsz, comp, photom, cfa, lin] *)
RawImageOf(w, d, exif, ty, le, wordsle) ==
  LET x == UIntValue(d, 256)  y == UIntValue(d, 257)
      pix == IF x.some /\ y.some THEN Pixels(x.v, y.v) ELSE -1
      so == UIntArray(d, 273)  sc == UIntArray(d, 279)
      to == UIntArray(d, 324)  tc == UIntArray(d, 325)
      strips == so.some /\ so.v # <<>> /\ sc.some /\ Total(sc.v) >= 0
      tiles == ~strips /\ to.some /\ tc.some
      len == IF strips THEN Total(sc.v) ELSE IF tiles THEN Total(tc.v) ELSE -1
      comp0 == UIntValue(d, 259)
      comp == IF ~comp0.some THEN cNone
              ELSE IF ty = "ORF" /\ len < 2 * pix THEN cOlympus
              ELSE IF comp0.v \in KnownComp THEN comp0.v ELSE 0
      bits == IF comp = cOlympus /\ ty = "ORF" THEN 12 ELSE ShortValue(d, 258, 0)
      plain == comp \in {cNone, cNikonPack, cPentaxPack}
      bytes == IF Len(so.v) = Len(sc.v) THEN Concat([i \in 1..Len(so.v) |-> Cut(w, so.v[i], sc.v[i])])
               ELSE Cut(w, so.v[1], len)
      photom == LET p == UIntValue(d, 262) IN IF p.some /\ p.v \in KnownPhotom THEN p.v ELSE 32803
      packed == Unpack(bytes, Enc(bits, bits # 12 \/ comp # cNone \/ ~le, comp = cNikonPack /\ bits = 12), x.v, y.v)
      words == bits = 16 \/ (bits \in {12, 14} /\ comp = cNone /\ len = 2 * pix)
      data == IF words THEN [ok |-> TRUE, v |-> Words(bytes, wordsle)]
              ELSE IF bits = 8 THEN [ok |-> TRUE, v |-> bytes]
              ELSE IF bits \in {10, 12, 14} THEN packed
              ELSE [ok |-> FALSE, v |-> <<>>]
      base == [ok |-> TRUE, w |-> x.v, h |-> y.v, bpc |-> bits, photom |-> photom,
               cfa |-> Mosaic(w, d, exif), lin |-> WordArray(d, 50712), le |-> le]
      tsz == <<OrElse(UIntValue(d, 322), 0), OrElse(UIntValue(d, 323), 0)>>
  IN IF pix < 0 \/ len < 0 \/ len > WLen(w) \/ bits > 32 THEN Failed
     ELSE IF plain
     THEN IF ~strips \/ ~data.ok \/ Len(data.v) < pix THEN Failed
          ELSE base @@ [type |-> "RAW", dk |-> "16", data |-> data.v, comp |-> cNone, tsz |-> <<>>]
     ELSE IF tiles
     THEN base @@ [type |-> "COMP_RAW", dk |-> "tiled", comp |-> comp, tsz |-> tsz,
                   data |-> [i \in 1..Min2(Len(to.v), Len(tc.v)) |-> TileBytes(w, to.v[i], tc.v[i])]]
     ELSE base @@ [type |-> "COMP_RAW", dk |-> "8", data |-> bytes, comp |-> comp, tsz |-> <<>>]

sR1 == <<68, 83, 67, 45, 82, 49>>
(* an ORF image that holds less than two bytes for each pixel is Olympus compressed, whatever the directory says *)
OrfTyped(r) ==
  LET size == CASE r.dk = "16" -> 2 * Len(r.data) [] r.dk = "8" -> Len(r.data)
                [] OTHER -> FoldLeft(LAMBDA a, t : a + Len(t), 0, r.data)
  IN IF size < 2 * r.w * r.h THEN [r EXCEPT !.comp = cOlympus, !.type = "COMP_RAW"] ELSE r
(* r1: the words are big endian whatever the file is *)
RawWith(c, r1) ==
  LET w == Win(c.file, 0)  ty == c.hint  le == OrderFor(w, ty) = "le"
      m == MainOf(w, c, ty)
      d == RawDir(w, c, ty)
      r == RawImageOf(w, d, ExifOf(w, m), ty, le, IF r1 THEN FALSE ELSE le)
  IN IF ~m.ok \/ ~d.ok THEN Failed
     ELSE IF ~r.ok THEN Failed
     ELSE IF ty = "ORF" THEN OrfTyped([r EXCEPT !.photom = 32803, !.bpc = 12]) ELSE r
RawOf(c) == RawWith(c, c.hint = "ARW" /\ AsciiValue(MainOf(Win(c.file, 0), c, "ARW"), 272) = [some |-> TRUE, v |-> sR1])

(* is observation o that image *)
ImageVerdict(r, o) ==
  IF ~r.ok THEN IF o.st = "err" \/ ("any" \in DOMAIN r /\ r.any) THEN "" ELSE "an image where the file has none"
  ELSE IF o.st # "ok" THEN "no image: " \o o.st
  ELSE IF o.w # r.w \/ o.h # r.h THEN "size " \o ToString(o.w) \o "x" \o ToString(o.h) \o " instead of " \o ToString(r.w) \o "x" \o ToString(r.h)
  ELSE IF o.bpc # r.bpc THEN "bit depth " \o ToString(o.bpc) \o " instead of " \o ToString(r.bpc)
  ELSE IF o.dt # r.type \/ o.comp # r.comp THEN "type " \o o.dt \o " compression " \o ToString(o.comp) \o " instead of " \o r.type \o " " \o ToString(r.comp)
  ELSE IF o.dk # r.dk THEN "kind of data " \o o.dk \o " instead of " \o r.dk
  ELSE IF o.tsz # r.tsz THEN "tile size"
  ELSE IF o.data # r.data THEN "data differs"
  ELSE IF o.photom # r.photom THEN "photometric interpretation " \o ToString(o.photom)
  ELSE IF o.cfa # r.cfa.name \/ o.cfap # r.cfa.v THEN "mosaic " \o o.cfa \o " instead of " \o r.cfa.name
  ELSE IF Len(r.cfa.v) = 4 /\ r.cfa.name \notin {"NONE", "NON_RGB22"} /\ (o.cfaw # 2 \/ o.cfah # 2) THEN "mosaic size"
  ELSE IF o.lin # r.lin THEN "linearization table"
  ELSE ""
=============================================================================
