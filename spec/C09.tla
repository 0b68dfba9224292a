-------------------------------- MODULE C09 --------------------------------
(* Conformance of Nikon compressed raw images.                                     *)
EXTENDS TraceKit, Nikon

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i] IN
  IF o.st = "panic" THEN o.st ELSE NefVerdict(c, op[2], o)
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
