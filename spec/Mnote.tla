------------------------------- MODULE Mnote -------------------------------
(* Maker notes: which vendor's by signature, where its directory starts and  *)
(* from where its offsets count.                                             *)
EXTENDS Tiff

AOC == <<65, 79, 67, 0>>
IsCanon(ty) == ty \in {"CR2", "CR3", "CRW"}

Nk(id, start, base, table) == [ok |-> TRUE, id |-> id, start |-> start, base |-> base, table |-> table, order |-> ""]
NkBad == [ok |-> FALSE]
Starts(h, t) == SubSeq(h, 1, Len(t)) = t

sNikon == <<78, 105, 107, 111, 110, 0>>
sOlympus2 == <<79, 76, 89, 77, 80, 85, 83, 0>>
sOmSystem == <<79, 77, 32, 83, 89, 83, 84, 69, 77>>
sOlympus == <<79, 76, 89, 77, 80, 0>>
sEpson == <<69, 80, 83, 79, 78, 0>>
sPentax == <<80, 69, 78, 84, 65, 88, 32, 0>>
sPanasonic == <<80, 97, 110, 97, 115, 111, 110, 105, 99, 0>>
sRicoh == <<82, 105, 99, 111, 104, 0>>
sLeicaAG == <<76, 69, 73, 67, 65, 32, 67, 65, 77, 69, 82, 65, 32, 65, 71, 0>>
sLeica == <<76, 69, 73, 67, 65>>
sYi == <<89, 73, 32, 32, 32, 32, 32, 0>>
sApple == <<65, 112, 112, 108, 101, 32, 105, 79, 83, 0>>
sStmn == <<83, 84, 77, 78>>
sFuji == <<70, 85, 74, 73, 70, 73, 76, 77>>
sSigma == <<83, 73, 71, 77, 65, 0>>
sMlt0 == <<77, 76, 84, 48>>
sSony == <<83, 79, 78, 89, 32, 68, 83, 67, 32>>
sSeitz == <<83, 69, 73, 84, 90, 32, 80, 72, 79, 84, 79, 84, 69, 67, 72, 78, 73, 75, 0>>
sLsi1 == <<76, 83, 73, 49, 0>>
sHdrp == <<72, 68, 82, 80>>

(* the order a maker note that has a TIFF header says it is in *)
OwnOrder(h, i) == CASE h[i] = 73 /\ h[i + 1] = 73 -> "le" [] h[i] = 77 /\ h[i + 1] = 77 -> "be" [] OTHER -> ""

LeicaKind(h, ty, off) ==
  LET a == h[6]  b == h[7]  c == h[8] IN
  CASE a = 0 /\ b = 0 /\ c = 0 /\ ty = "RW2" -> Nk("Exif.Panasonic", off + 8, 0, "MNOTE_PANASONIC")
    [] a = 0 /\ b = 0 /\ c = 0 -> Nk("Exif.Leica2", off + 8, off, "MNOTE_LEICA2")
    [] a = 0 /\ c = 0 /\ b \in 8..10 -> Nk("Exif.Leica5", off + 8, 0, "MNOTE_LEICA5")
    [] a = 0 /\ c = 0 /\ b \in {1, 4, 5, 6, 7, 16, 26} -> Nk("Leica5", off + 8, off, "MNOTE_LEICA5")
    [] a = 0 /\ b = 2 /\ c = 255 -> Nk("Exif.Leica6", off + 8, 0, "MNOTE_LEICA6")
    [] a = 48 /\ b = 3 /\ c = 0 -> Nk("Exif.Leica4", off + 8, off, "MNOTE_LEICA4")
    [] a = 0 /\ b = 2 /\ c = 0 -> Nk("Exif.Leica9", off + 8, 0, "MNOTE_LEICA9")
    [] OTHER -> NkBad

(* h: the first 19 bytes of the maker note at offset off *)
MnoteKind(h, ty, off) ==
  CASE ty = "ARW" -> Nk("Exif.Sony5", IF Starts(h, sSony) THEN off + 12 ELSE off, 0, "MNOTE_SONY")
    [] Starts(h, sNikon) /\ h[7] = 1 -> Nk("Exif.Nikon2", off + 8, off + 8, "MNOTE_NIKON2")
    [] Starts(h, sNikon) /\ h[7] = 2 -> [Nk("Exif.Nikon", off + 18, off + 10, "MNOTE_NIKON") EXCEPT !.order = OwnOrder(h, 11)]
    [] Starts(h, sNikon) -> Nk("Exif.NikonX", off, off, "")
    [] ty = "NEF" -> Nk("Exif.NikonHeaderless", off, 0, "MNOTE_NIKON")
    [] Starts(h, sOlympus2) -> Nk("Exif.Olympus2", off + 12, off, "MNOTE_OLYMPUS")
    [] Starts(h, sOmSystem) -> Nk("Exif.Olympus2", off + 16, off, "MNOTE_OLYMPUS")
    [] Starts(h, sOlympus) -> Nk("Exif.Olympus", off + 8, 0, "MNOTE_OLYMPUS")
    [] Starts(h, sEpson) -> Nk("Exif.Epson", off + 8, 0, "MNOTE_OLYMPUS")
    [] Starts(h, AOC) -> Nk("Exif.Pentax", off + 6, 0, "MNOTE_PENTAX")
    [] Starts(h, sPentax) -> Nk("Exif.Pentax", off + 10, off, "MNOTE_PENTAX")
    [] Starts(h, sPanasonic) -> Nk("Exif.Panasonic", off + 12, 0, "MNOTE_PANASONIC")
    [] Starts(h, sRicoh) -> Nk("Exif.Ricoh", off + 8, 0, "MNOTE_RICOH")
    [] Starts(h, sLeicaAG) /\ ty = "RW2" -> Nk("Exif.Panasonic", off + 18, 0, "MNOTE_PANASONIC")
    [] Starts(h, sLeicaAG) /\ ty = "DNG" -> Nk("Exif.Leica5", off + 18, 0, "MNOTE_LEICA5")
    [] Starts(h, sLeica) /\ LeicaKind(h, ty, off).ok -> LeicaKind(h, ty, off)
    [] Starts(h, sYi) -> Nk("Exif.Xiaoyi", off + 12, off, "")
    [] Starts(h, sApple) -> Nk("Exif.Apple", off + 14, off, "MNOTE_APPLE")
    [] Starts(h, sStmn) /\ SubSeq(h, 9, 12) = <<0, 0, 0, 0>> -> Nk("Exif.Samsung1a", off, off, "")
    [] Starts(h, sStmn) -> Nk("Exif.Samsung1b", off, off, "")
    [] Starts(h, sFuji) -> [Nk("Exif.Fujifilm", off + 12, off, "MNOTE_FUJIFILM") EXCEPT !.order = "le"]
    [] Starts(h, sSigma) -> Nk("Exif.Sigma", off + 10, 0, "MNOTE_SIGMA")
    [] SubSeq(h, 11, 14) = sMlt0 -> Nk("Exif.Minolta", off, 0, "MNOTE_MINOLTA")
    [] Starts(h, sSeitz) \/ Starts(h, sLsi1) \/ Starts(h, sHdrp) -> NkBad
    [] OTHER -> Nk("", off, 0, "")

NoNote == [ok |-> FALSE, es |-> <<>>, kind |-> "MakerNote"]
(* the maker note at offset off of window w, le: order of the container *)
MakerNoteAt(w, le, ty, off) ==
  LET k == IF IsCanon(ty) THEN Nk("Exif.Canon", off, 0, "MNOTE_CANON")
           ELSE IF off < 0 \/ ~Has(w, off, 19) THEN NkBad
           ELSE MnoteKind(Sub(w, off, 19), ty, off)
  IN IF ~k.ok THEN NoNote
     ELSE LET d == DirAt(w, IF k.order = "" THEN le ELSE k.order = "le", k.start, k.base, "MakerNote")
          IN IF ~d.ok THEN NoNote
             ELSE [ok |-> TRUE, le |-> d.le, kind |-> "MakerNote", base |-> k.base, es |-> d.es,
                   next |-> d.next, id |-> k.id, table |-> k.table]

(* offset of the value of an UNDEFINED entry that is not inline *)
BlobOffset(d, tag) ==
  IF HasTag(d, tag) /\ Entry(d, tag).type = TUndef /\ Entry(d, tag).off # -1
  THEN Some(Entry(d, tag).off) ELSE None
(* the maker note of an Exif directory *)
NoteOf(w, exif, ty) ==
  LET p == IF exif.ok THEN BlobOffset(exif, 37500) ELSE None
  IN IF p.some THEN MakerNoteAt(w, exif.le, ty, p.v) ELSE NoNote

(* the directory an entry designates: by value when LONG or IFD, else it is  *)
(* the data of the entry.  The origin of d applies.                          *)
IfdInEntry(w, d, tag, le) ==
  IF ~HasTag(d, tag) THEN NoDir
  ELSE LET e == Entry(d, tag)
           a == IF e.type \in {TLong, 13}
                THEN IF e.count = 0 THEN None
                     ELSE LET m == IF e.off = -1 THEN Win(e.raw, 0) ELSE DW(e) IN
                          IF Len(m.f) < 4 THEN None
                          ELSE LET v == U32(m, d.le, 0) IN
                               IF v >= 0 /\ v <= WLen(w) THEN Some(v + d.base) ELSE None
                ELSE IF e.type = TUndef /\ e.off # -1 THEN Some(e.off + d.base) ELSE None
       IN IF a.some THEN DirAt(w, le, a.v, d.base, "Other") ELSE NoDir
=============================================================================
