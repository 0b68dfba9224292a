-------------------------------- MODULE C03 --------------------------------
(* Conformance of the metadata interface: the iteration, the lookup by key   *)
(* and the orientation.                                                      *)
EXTENDS TraceKit, MetaQ

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Dirs(c) == LET w == Win(c.file, 0) IN ChainFor(w, OrderFor(w, c.hint), c.kinds)
Table(c, i) == IF c.hint = "RW2" /\ i = 1 THEN "RAW_PANASONIC" ELSE "EXIF"
TablesOf(c) == [i \in 1..Len(Dirs(c)) |-> Table(c, i)]
Main(c) == LET ds == Dirs(c) IN IF Len(ds) = 0 THEN NoDir ELSE ds[1]

Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE CASE op[1] = "meta" -> MetaVerdict(Dirs(c), TablesOf(c), o)
            [] op[1] = "get" -> GetVerdict(Main(c), Table(c, 1), op[2], o)
            [] op[1] = "orient" -> OrientVerdict(Main(c), Table(c, 1), o)
            [] OTHER -> "unknown query"
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
