------------------------------- MODULE Dumped -------------------------------
(* The dump of a file: every TIFF structure, JPEG stream and directory of the *)
(* file, each in its window, in order and one level below what it belongs to. *)
EXTENDS Windows, Minolta, Cr3

TiffItem(d, order, n, off) == [x |-> "tiff", d |-> d, e |-> IF order = "le" THEN "II" ELSE "MM", n |-> n, off |-> off]
JpegItem(d, off) == [x |-> "jpeg", d |-> d, off |-> off]
DirItem(dir, d, id, table) == [x |-> "ifd", d |-> d, dir |-> dir, id |-> id, table |-> table]
(* a directory and those that belong to it *)
Family(w, dir, d, id, table, ty) ==
  LET e == ExifOf(w, dir)  g == GpsOf(w, dir)  s == SubIfdsOf(w, dir)
      m == IF e.ok THEN NoteOf(w, e, ty) ELSE NoNote
  IN <<DirItem(dir, d, id, table)>>
     \o (IF e.ok THEN <<DirItem(e, d + 1, "Exif", "EXIF")>> ELSE <<>>)
     \o (IF m.ok THEN <<DirItem(m, d + 2, m.id, m.table)>> ELSE <<>>)
     \o (IF g.ok THEN <<DirItem(g, d + 1, "GPSInfo", "GPSINFO")>> ELSE <<>>)
     \o [i \in 1..Len(s) |-> DirItem(s[i], d + 1, "", "EXIF")]
(* the TIFF structure of window w, whose view starts at off *)
TiffItems(w, order, kinds, first, d, off, ty) ==
  IF order = "bad" THEN <<>>
  ELSE LET ds == ChainFor(w, order, kinds) IN
       <<TiffItem(d, order, Len(ds), off)>>
       \o Concat([i \in 1..Len(ds) |->
            LET k == ds[i].kind  canon == k = "MakerNote" /\ IsCanon(ty) IN
            Family(w, ds[i], d + 1, IF canon THEN "Exif.Canon" ELSE k,
                   IF canon THEN "MNOTE_CANON" ELSE IF i = 1 THEN first ELSE "EXIF", ty)])
JpegItems(w, at, d, ty) ==
  LET x == ExifIn(w, FrameAt(w, at)) IN
  <<JpegItem(d, at)>> \o TiffItems(x, Order(x), <<"Main", "Other">>, "EXIF", d + 1, 0, ty)
OneDir(dir, d, id, table) == IF dir.ok THEN <<DirItem(dir, d, id, table)>> ELSE <<>>

OlyDirs == << <<8224, "Exif.OlympusCs", "MNOTE_OLYMPUS_CS">>, <<8256, "Exif.OlympusIp", "MNOTE_OLYMPUS_IP">>,
              <<8240, "Exif.OlympusRd", "MNOTE_OLYMPUS_RD">>, <<8241, "Exif.OlympusRd2", "MNOTE_OLYMPUS_RD2">>,
              <<8272, "Exif.OlympusFi", "MNOTE_OLYMPUS_FI">>, <<8208, "Exif.OlympusEq", "MNOTE_OLYMPUS_EQ">>,
              <<12288, "Exif.OlympusRi", "MNOTE_OLYMPUS_RI">> >>
TiffDump(c) ==
  LET w == Win(c.file, 0)  o == OrderFor(w, c.hint)
      main == TiffItems(w, o, c.kinds, NTable(c, 1), 1, 0, c.hint)
      m == TiffMeta(w, c)
      n == m.note
      cam == IF c.hint = "RW2" /\ m.main.ok THEN BlobOffset(m.main, 288) ELSE None
      cd == IF cam.some /\ cam.v <= WLen(w) THEN Dir0(Win(c.file, cam.v)) ELSE NoDir
  IN main
     \o (IF c.hint = "ORF" /\ n.ok
         THEN Concat([i \in 1..Len(OlyDirs) |-> OneDir(IfdInEntry(w, n, OlyDirs[i][1], n.le), 1, OlyDirs[i][2], OlyDirs[i][3])])
         ELSE <<>>)
     \o OneDir(cd, 1, "Main", "RAW_PANASONIC_CAMERAIFD")
RafDump(c) ==
  LET w == Win(c.file, 0)  h == RafHeader(w)  m == TLCEval(RafMeta(w, h))
      t == RafTiff(w, h, m)  has == m.ok
      r == RafRawDir(w, h, m)
  IN IF ~h.ok THEN <<>>
     ELSE (IF h.jpeg > WLen(w) \/ h.jpeg < 0 THEN <<>> ELSE JpegItems(w, h.jpeg, 2, "RAF"))
          \o (IF ~has THEN <<>>
              ELSE TiffItems(t, Order(t), <<>>, "EXIF", 3, h.cfa, "RAF")
                   \o OneDir(r, 3, "Raw.Fujifilm", "MNOTE_FUJIFILM_RAWIFD"))
MrwDump(c) ==
  LET h == MrwHeader(Win(c.file, 0), FALSE)  t == TtwWin(c) IN
  IF ~h.ok \/ h.ttw = -1 THEN <<>> ELSE TiffItems(t, Order(t), <<"Main">>, "EXIF", 3, h.ttw, "MRW")
Cr3Dump(c, f) ==
  LET w == Win(c.file, 0)  p == f.head.prvw
      has == p >= 0 /\ p <= WLen(w) /\ Has(w, p + 46, 10)
      block(i) == LET b == BlockWin(f, i) IN TiffItems(b, Order(b), <<(<<"Main", "Exif", "MakerNote", "Other">>)[i]>>, "EXIF", 3, 0, "CR3")
  IN (IF ~has THEN <<>>
      ELSE IF U16(w, FALSE, p + 46) = 0 \/ U16(w, FALSE, p + 48) = 0 \/ U32(w, FALSE, p + 52) = 0 THEN <<>>
      ELSE JpegItems(w, p + 56, 3, "CR3"))
     \o block(1) \o block(2) \o block(3) \o block(4)

DumpItems(c) ==
  CASE c.hint = "JPEG" -> JpegItems(Win(c.file, 0), 0, 1, "JPEG")
    [] c.hint = "RAF" -> RafDump(c)
    [] c.hint = "MRW" -> MrwDump(c)
    [] c.hint = "CR3" -> LET f == TLCEval(Cr3Of(c)) IN Cr3Dump(c, f)
    [] OTHER -> TiffDump(c)
ItemDumped(x, o) ==
  IF x.x # o.x THEN "dump: " \o o.x \o " where " \o x.x \o " is expected"
  ELSE CASE x.x = "tiff" -> IF o.d # x.d \/ o.e # x.e \/ o.n # x.n \/ o.off # x.off THEN "dump: the TIFF structure at " \o ToString(x.off) ELSE ""
         [] x.x = "jpeg" -> IF o.d # x.d \/ o.off # x.off THEN "dump: the JPEG stream at " \o ToString(x.off) ELSE ""
         [] OTHER -> DumpDirVerdict(x.dir, x.d, x.id, x.table, o)
DumpedVerdict(xs, o) ==
  LET got == SelectSeq(o.items, LAMBDA i : i.x # "line") IN
  IF Len(got) # Len(xs) THEN "dump: " \o ToString(Len(got)) \o " structures and directories instead of " \o ToString(Len(xs))
  ELSE FirstBad([i \in 1..Len(xs) |-> ItemDumped(xs[i], got[i])])
=============================================================================
