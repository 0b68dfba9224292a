-------------------------------- MODULE C16 --------------------------------
(* Conformance of the maker notes: recognised by signature, read with the    *)
(* byte order and the origin of the vendor; and the Exif directory they are  *)
(* found from, whatever container it is in (TIFF, JPEG, JPEG preview).       *)
EXTENDS TraceKit, Windows

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]  m == TLCEval(MetaOf(c))
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE CASE op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(m.main, "Main", NTable(c, 1), o)
            [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(m.exif, "Exif", "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "mnote" ->
                 IF m.note.ok THEN DirVerdict(m.note, m.note.id, m.note.table, o) ELSE DirVerdict(NoDir, "", "", o)
            [] op[1] = "meta" -> MetaVerdict(m.ds, [j \in 1..Len(m.ds) |-> NTable(c, j)], o)
            [] op[1] = "get" -> GetVerdict(m.main, NTable(c, 1), op[2], o)
            [] op[1] = "orient" -> OrientVerdict(m.main, NTable(c, 1), o)
            [] OTHER -> "unknown query"
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
