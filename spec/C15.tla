-------------------------------- MODULE C15 --------------------------------
(* Conformance of the description of the sensor in TIFF based formats, and   *)
(* in Canon CRW files.                                                       *)
EXTENDS TraceKit, SensorTiff, C15Crw, A100

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Cr2Verdict(c, o, skip) ==
  IF o.st # "ok" THEN IF skip /\ Cr2Raw(c, 8).ok THEN "no image: " \o o.st ELSE ""
  ELSE LET r == Cr2Raw(c, o.bpc) IN
       IF ~r.ok THEN "an image where the file has none"
       ELSE IF skip /\ (o.w # r.w \/ o.h # r.h) THEN "size of the image"
       ELSE IF o.cfa # r.cfa THEN "mosaic " \o o.cfa \o " instead of " \o r.cfa
       ELSE TiffSensorVerdict(r.s, o)
R1Camera == <<8, 78>>
Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE IF c.hint = "CR2" THEN Cr2Verdict(c, o, op[2])
     ELSE IF c.hint = "CRW" THEN CrwVerdict(c, o, op[2])
     ELSE IF IsA100(c) THEN LET r == A100Raw(c)  v == ImageVerdict(r, o) IN
                            IF v # "" \/ ~r.ok THEN v ELSE TiffSensorVerdict(A100Sensor(c), o)
     ELSE LET r == IF c.hint = "ARW" THEN RawWith(c, TiffCamera(c) = R1Camera) ELSE RawOf(c)
              v == ImageVerdict(r, o)
          IN IF v # "" \/ ~r.ok THEN v ELSE TiffSensorVerdict(SensorOf(c, r), o)
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
