-------------------------------- MODULE C26 --------------------------------
(* Conformance of the decompression of Fujifilm raw data.                    *)
EXTENDS TraceKit, Raf

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET o == C.obs[k]
              skip == C.ops[k][2]
              r == TLCEval(RafRaw(C, skip))
              free == ~skip /\ r.ok /\ r.type = "COMP_RAW" /\ o.st = "ok" /\ Unsaid(C)
              v == IF o.st \in {"panic", "reopen-failed"} THEN o.st
                   ELSE IF free /\ o.dk = "16" THEN IF o.w = r.w /\ o.h = r.h THEN Good ELSE "dimensions" ELSE ImageVerdict(r, o)
          IN IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
