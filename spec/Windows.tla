------------------------------ MODULE Windows ------------------------------
(* Where the metadata of a file is: the windows and their directories.       *)
EXTENDS MetaQ, Raf

ExifIn(w, f) == IF ~f.ok \/ f.exif = -1 THEN Win(<<>>, 0) ELSE ExifWin(w, f)
(* the Exif data of a JPEG stream: directories, Exif, maker note *)
JpegMeta(x, ty) ==
  LET ds == Chain(x, <<"Main", "Other">>)
      main == IF ds = <<>> THEN NoDir ELSE ds[1]
      exif == IF main.ok THEN ExifOf(x, main) ELSE NoDir
  IN [ds |-> ds, main |-> main, exif |-> exif, note |-> IF exif.ok THEN NoteOf(x, exif, ty) ELSE NoNote]
TiffMeta(w, c) ==
  LET ds == ChainFor(w, OrderFor(w, c.hint), c.kinds)
      main == IF ds = <<>> THEN NoDir ELSE ds[1]
      exif == IF main.ok THEN ExifOf(w, main) ELSE NoDir
  IN [ds |-> ds, main |-> main, exif |-> exif, note |-> IF exif.ok THEN NoteOf(w, exif, c.hint) ELSE NoNote]
MetaOf(c) ==
  LET w == Win(c.file, 0) IN
  CASE c.hint = "JPEG" -> JpegMeta(ExifIn(w, FrameAt(w, 0)), "JPEG")
    [] c.hint = "RAF" -> JpegMeta(RafExif(c), "RAF")
    [] c.hint = "RW2" ->
         LET t == TiffMeta(w, c)
             b == IF t.main.ok THEN BlobOffset(t.main, 46) ELSE None
             j == IF b.some THEN JpegMeta(ExifIn(w, FrameAt(w, b.v)), "RW2") ELSE [exif |-> NoDir, note |-> NoNote]
         IN [t EXCEPT !.exif = IF j.exif.ok THEN j.exif ELSE @, !.note = j.note]
    [] OTHER -> TiffMeta(w, c)
NTable(c, i) == IF c.hint = "RW2" /\ i = 1 THEN "RAW_PANASONIC" ELSE "EXIF"
=============================================================================
