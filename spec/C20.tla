-------------------------------- MODULE C20 --------------------------------
(* Conformance of the metadata and previews of Canon CIFF files.             *)
EXTENDS TraceKit, Ciff

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]  f == CiffOf(c)
      ds == CiffDirs(f)
      main == IF ds = <<>> THEN NoDir ELSE ds[1]
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE CASE op[1] = "meta" -> MetaVerdict(ds, <<"EXIF", "EXIF">>, o)
            [] op[1] = "get" -> GetVerdict(main, "EXIF", op[2], o)
            [] op[1] = "orient" -> OrientVerdict(main, "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(main, "", "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(IF ds = <<>> THEN NoDir ELSE ds[2], "", "EXIF", o)
            [] op[1] = "ifd" -> IF o.st = "none" THEN "" ELSE "a maker note"
            [] op[1] = "sizes" -> SizesVerdict(IF f.root.ok THEN CiffPreviews(f) ELSE <<>>, o)
            [] op[1] = "thumb" -> ThumbVerdict(c.file, IF f.root.ok THEN CiffPreviews(f) ELSE <<>>, op[2], o)
            [] OTHER -> "unknown query"
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
