-------------------------------- MODULE C05 --------------------------------
(* Conformance of the raw image.                                            *)
EXTENDS TraceKit, Cr2

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Verdict(c, i) ==
  LET o == c.obs[i] IN
  IF o.st = "panic" THEN o.st ELSE ImageVerdict(IF c.hint = "CR2" THEN Cr2Image(c) ELSE RawOf(c), o)
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
