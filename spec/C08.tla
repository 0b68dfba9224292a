-------------------------------- MODULE C08 --------------------------------
(* Conformance of the layout of tiles and slices.                           *)
EXTENDS TraceKit, LjpegRaw

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Verdict(c, i) ==
  LET o == c.obs[i] IN
  IF o.st = "panic" THEN o.st
  ELSE IF c.ops[i][2] THEN ImageVerdict(RawOf(c), o)
  (* the image that was cut *)
  ELSE IF "src" \in DOMAIN c /\ o.st = "ok" /\ o.data # c.src THEN "not the samples in their place"
  ELSE LjpegVerdict(c, o)
Next ==
  /\ k <= Len(C.obs) + 1
  /\ UNCHANGED n
  /\ IF "open" \in DOMAIN C /\ C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.obs) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
