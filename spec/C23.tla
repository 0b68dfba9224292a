-------------------------------- MODULE C23 --------------------------------
(* Conformance of Canon CR3 files.                                           *)
EXTENDS TraceKit, Cr3

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]  f == TLCEval(Cr3Of(c))
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE IF ~f.ok THEN ""
     ELSE CASE op[1] = "ids" -> LET id == Cr3Camera(f) IN
                 IF o.st = "ok" /\ o.v = id[1] /\ o.c = id[2] /\ o.vid = id[1] THEN ""
                 ELSE "identity " \o ToString(o) \o " instead of " \o ToString(id)
            [] op[1] = "get" -> GetVerdict(Cr3Dir(f, 1), "EXIF", op[2], o)
            [] op[1] = "orient" -> OrientVerdict(Cr3Dir(f, 1), "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(Cr3Dir(f, 1), "Main", "EXIF", o)
            [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(Cr3Dir(f, 2), "Exif", "EXIF", o)
            [] op[1] = "ifd" -> DirVerdict(Cr3Note(f), "Exif.Canon", "MNOTE_CANON", o)
            [] op[1] = "sizes" -> SizesVerdict(Cr3Previews(c, f), o)
            [] op[1] = "thumb" -> ThumbVerdict(c.file, Cr3Previews(c, f), op[2], o)
            [] op[1] = "raw" -> IF Cr3Unsaid(f) THEN ""
                                ELSE LET r == Cr3Raw(c, f)  v == ImageVerdict(r, o) IN
                                     IF v # "" \/ ~r.ok THEN v ELSE SensorVerdict(Cr3Sensor(f), o)
            [] OTHER -> "unknown query"
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
