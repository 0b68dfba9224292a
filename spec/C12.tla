-------------------------------- MODULE C12 --------------------------------
(* Conformance of Olympus raw images.                                        *)
EXTENDS TraceKit, Olympus

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

(* the decoder alone, on s, is asked for a w by h image *)
Direct(c, o) ==
  LET q == c.direct[1]  u == OlyDecode(q.data, q.w, q.h) IN
  IF ~u.ok THEN IF o.st = "err" THEN "" ELSE "an image from short data"
  ELSE IF o.st # "ok" THEN "no image" ELSE IF o.data # u.v THEN "data differs" ELSE ""
Verdict(c, i) ==
  LET o == c.obs[i] IN
  IF o.st = "panic" THEN o.st
  ELSE IF "direct" \in DOMAIN c THEN Direct(c, o) ELSE ImageVerdict(OrfRaw(c, c.ops[i][2]), o)
Next ==
  /\ k <= Len(C.obs) + 1
  /\ UNCHANGED n
  /\ IF "open" \in DOMAIN C /\ C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.obs) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
