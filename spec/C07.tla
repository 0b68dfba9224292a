-------------------------------- MODULE C07 --------------------------------
(* Conformance of the lossless JPEG decoder, alone and in DNG and CR2.       *)
EXTENDS TraceKit, LjpegRaw

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Direct(c, o) == LET q == c.direct[1] IN ImageIs(Image(q.data, q.raw, q.slices), o)
Verdict(c, i) ==
  LET o == c.obs[i] IN
  IF o.st = "panic" THEN o.st
  (* what the encoder had *)
  ELSE IF "src" \in DOMAIN c /\ o.st = "ok" /\ o.data # c.src THEN "not the encoded samples"
  ELSE IF "src" \in DOMAIN c /\ o.st # "ok" THEN "no image"
  ELSE IF "direct" \in DOMAIN c THEN Direct(c, o) ELSE LjpegVerdict(c, o)
Next ==
  /\ k <= Len(C.obs) + 1
  /\ UNCHANGED n
  /\ IF "open" \in DOMAIN C /\ C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.obs) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
