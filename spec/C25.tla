-------------------------------- MODULE C25 --------------------------------
(* Conformance of reads of nested windows, interleaved.  Whatever was read   *)
(* before, each query is answered from its own window: what the window says, *)
(* read as a file of its own.  A query that this module doesn't specify      *)
(* (memo) has the answer it had before.                                       *)
EXTENDS TraceKit, Dumped, C15Crw, CiffDump

VARIABLES n, k, memo
vars == <<n, k, memo>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1 /\ memo = <<>>

Tiffs == {"JPEG", "RW2", "NEF", "ORF", "PEF", "DNG", "ERF"}
NoteVerdict(m, o) == IF m.ok THEN DirVerdict(m, m.id, m.table, o) ELSE DirVerdict(NoDir, "", "", o)
TiffVerdict25(c, op, o) ==
  LET m == TLCEval(MetaOf(c)) IN
  CASE op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(m.main, "Main", NTable(c, 1), o)
    [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(m.exif, "Exif", "EXIF", o)
    [] op[1] = "ifd" -> NoteVerdict(m.note, o)
    [] op[1] = "meta" -> MetaVerdict(m.ds, [j \in 1..Len(m.ds) |-> NTable(c, j)], o)
    [] op[1] = "sizes" -> SizesVerdict(PreviewsOf(c), o)
    [] op[1] = "thumb" -> ThumbVerdict(c.file, PreviewsOf(c), op[2], o)
    [] OTHER -> ""
RafVerdict25(c, op, o) ==
  LET bad == ~RafHeader(Win(c.file, 0)).ok IN
  CASE op[1] = "meta" /\ bad -> IF o.st = "none" THEN "" ELSE "metadata of a damaged file"
    [] op[1] = "meta" -> MetaVerdict(RafDirs(c), [j \in 1..Len(RafDirs(c)) |-> "EXIF"], o)
    [] op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(RafMain(c), "Main", "EXIF", o)
    [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(RafExifDir(c), "Exif", "EXIF", o)
    [] op[1] = "ifd" -> NoteVerdict(RafNote(c), o)
    [] op[1] = "sizes" -> SizesVerdict(RafPreviews(c), o)
    [] op[1] = "thumb" -> ThumbVerdict(c.file, RafPreviews(c), op[2], o)
    [] op[1] = "raw" -> ImageVerdict(RafRaw(c, op[2]), o)
    [] OTHER -> ""
MrwVerdict25(c, op, o) ==
  CASE op[1] = "meta" /\ ~MrwHeader(Win(c.file, 0), FALSE).ok -> IF o.st = "none" THEN "" ELSE "metadata of a damaged file"
    [] op[1] = "meta" -> MetaVerdict(MrwDirs(c), [j \in 1..Len(MrwDirs(c)) |-> "EXIF"], o)
    [] op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(MrwMain(c), "Main", "EXIF", o)
    [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(MrwExif(c), "Exif", "EXIF", o)
    [] op[1] = "ifd" -> NoteVerdict(MrwNote(c), o)
    [] op[1] = "sizes" -> SizesVerdict(MrwPreviews(c), o)
    [] op[1] = "thumb" -> ThumbVerdict(c.file, MrwPreviews(c), op[2], o)
    [] op[1] = "raw" -> ImageVerdict(MrwRaw(c, op[2]), o)
    [] OTHER -> ""
Cr3Verdict25(c, op, o) ==
  LET f == TLCEval(Cr3Of(c)) IN
  IF ~f.ok THEN ""
  ELSE CASE op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(Cr3Dir(f, 1), "Main", "EXIF", o)
         [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(Cr3Dir(f, 2), "Exif", "EXIF", o)
         [] op[1] = "ifd" -> DirVerdict(Cr3Note(f), "Exif.Canon", "MNOTE_CANON", o)
         [] op[1] = "sizes" -> SizesVerdict(Cr3Previews(c, f), o)
         [] op[1] = "thumb" -> ThumbVerdict(c.file, Cr3Previews(c, f), op[2], o)
         [] op[1] = "raw" /\ ~Cr3Unsaid(f) -> ImageVerdict(Cr3Raw(c, f), o)
         [] OTHER -> ""
CrwVerdict25(c, op, o) ==
  LET f == TLCEval(CiffOf(c))  ds == CiffDirs(f)  main == IF ds = <<>> THEN NoDir ELSE ds[1] IN
  CASE op[1] = "meta" -> MetaVerdict(ds, <<"EXIF", "EXIF">>, o)
    [] op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(main, "", "EXIF", o)
    [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(IF ds = <<>> THEN NoDir ELSE ds[2], "", "EXIF", o)
    [] op[1] = "ifd" -> IF o.st = "none" THEN "" ELSE "a maker note"
    [] op[1] = "sizes" -> SizesVerdict(IF f.root.ok THEN CiffPreviews(f) ELSE <<>>, o)
    [] op[1] = "thumb" -> ThumbVerdict(c.file, IF f.root.ok THEN CiffPreviews(f) ELSE <<>>, op[2], o)
    [] OTHER -> ""
WindowVerdict(c, op, o) ==
  CASE c.hint \in Tiffs -> TiffVerdict25(c, op, o)
    [] c.hint = "RAF" -> RafVerdict25(c, op, o)
    [] c.hint = "MRW" -> MrwVerdict25(c, op, o)
    [] c.hint = "CR3" -> Cr3Verdict25(c, op, o)
    [] c.hint = "CRW" -> CrwVerdict25(c, op, o)
Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i] IN
  IF o.st \in {"panic", "reopen-failed"} THEN o.st
  ELSE IF ToString(op) \in DOMAIN memo THEN IF memo[ToString(op)] = o THEN "" ELSE "the answer to " \o ToString(op) \o " is another than the one before"
  ELSE IF op[1] = "dump" /\ c.hint = "CRW" THEN CrwDumpVerdict(c, o)
  ELSE IF op[1] = "dump" THEN IF c.hint = "CR3" /\ ~Cr3Of(c).ok THEN "" ELSE DumpedVerdict(TLCEval(DumpItems(c)), o)
  ELSE WindowVerdict(c, op, o)

Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000 /\ UNCHANGED memo
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000 /\ UNCHANGED memo
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 /\ memo' = (ToString(C.ops[k]) :> C.obs[k]) @@ memo
          ELSE Report(C.id, k, v) /\ k' = 1000 /\ UNCHANGED memo
Spec == Init /\ [][Next]_vars
=============================================================================
