-------------------------------- MODULE C21 --------------------------------
(* Conformance of Fujifilm RAF files.                                        *)
EXTENDS TraceKit, Raf

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]
      bad == ~RafHeader(Win(c.file, 0)).ok
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE CASE op[1] = "meta" /\ bad -> IF o.st = "none" THEN "" ELSE "metadata of a damaged file"
            [] op[1] = "meta" -> MetaVerdict(RafDirs(c), [j \in 1..Len(RafDirs(c)) |-> "EXIF"], o)
            [] op[1] = "get" -> GetVerdict(RafMain(c), "EXIF", op[2], o)
            [] op[1] = "orient" -> OrientVerdict(RafMain(c), "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(RafMain(c), "Main", "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(RafExifDir(c), "Exif", "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "mnote" -> LET m == RafNote(c) IN
                 IF m.ok THEN DirVerdict(m, m.id, m.table, o) ELSE DirVerdict(NoDir, "", "", o)
            [] op[1] = "sizes" -> SizesVerdict(RafPreviews(c), o)
            [] op[1] = "thumb" -> ThumbVerdict(c.file, RafPreviews(c), op[2], o)
            [] op[1] = "raw" -> LET r == RafRaw(c, op[2])  v == ImageVerdict(r, o) IN
                 IF v # "" \/ ~r.ok THEN v ELSE RafVerdict(c, o)
            [] OTHER -> "unknown query"
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
