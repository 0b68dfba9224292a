-------------------------------- MODULE C06 --------------------------------
(* Conformance of bit packed raw images.                                     *)
EXTENDS TraceKit, Minolta, Panasonic, Olympus

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

(* a D100 packs rows of 6 samples more than its images are wide *)
sD100 == <<78, 73, 75, 79, 78, 32, 68, 49, 48, 48, 32>>
IsD100(c) == LET m == MainOf(Win(c.file, 0), c, c.hint) IN c.hint = "NEF" /\ m.ok /\ HasTag(m, 272) /\ AsciiValue(m, 272) = [some |-> TRUE, v |-> sD100]
D100(r) ==
  IF ~r.ok THEN r
  ELSE LET u == Unpack(r.data, Enc(12, TRUE, TRUE), r.w + 6, r.h) IN
       IF r.dk # "8" \/ r.bpc # 12 \/ ~u.ok THEN Failed ELSE [r EXCEPT !.data = u.v, !.dk = "16", !.type = "RAW"]
Unpacked(c, skip) ==
  CASE c.hint = "RW2" -> Rw2Raw(c, skip)
    [] c.hint = "MRW" -> MrwRaw(c, skip)
    [] c.hint = "ORF" -> OrfRaw(c, skip)
    [] IsD100(c) -> D100(RawOf(c))
    [] OTHER -> RawOf(c)
Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]  r == Unpacked(c, op[2])  v == ImageVerdict(r, o) IN
  IF o.st = "panic" THEN o.st
  ELSE IF v # "" THEN v
  ELSE IF c.strict /\ r.ok /\ Len(o.data) # r.w * r.h THEN "more samples than the image has pixels" ELSE ""
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
