-------------------------------- MODULE C24 --------------------------------
(* Conformance of the identity of the camera and of its colour calibration.  *)
EXTENDS TraceKit, C15Crw, Minolta, Raf, Cr3

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

MrwBad(c) == c.hint = "MRW" /\ ~MrwHeader(Win(c.file, 0), FALSE).ok
MrwVersion(c) == IF MrwBad(c) THEN "" ELSE LET w == Win(c.file, 0) IN VersionText(w, MrwHeader(w, FALSE))
Damaged(c) == MrwBad(c) \/ (c.hint = "RAF" /\ ~RafHeader(Win(c.file, 0)).ok)
Camera(c) ==
  CASE c.hint = "CRW" -> CrwCamera(CiffOf(c))
    [] c.hint = "RAF" -> ByName("RAF", Text(RafHeader(Win(c.file, 0)).model), UnknownOf("RAF"))
    [] c.hint = "MRW" -> ByName("MRW", MrwVersion(c), UnknownOf("MRW"))
    [] c.hint = "JPEG" -> <<1000, 0>>
    [] c.hint = "CR3" -> Cr3Camera(Cr3Of(c))
    [] OTHER -> TiffCamera(c)
(* the directory that has the calibration of a file *)
CalDir(c) ==
  CASE c.hint \in {"CRW", "JPEG"} -> NoDir
    [] c.hint = "MRW" -> MrwMain(c)
    [] c.hint = "RAF" -> RafMain(c)
    [] c.hint = "CR3" -> Cr3Dir(Cr3Of(c), 1)
    [] OTHER -> MainOf(Win(c.file, 0), c, c.hint)
Lights == (0..4) \cup (9..24) \cup {255}
D65 == 21
BuiltinOf(c) == IF c.hint \in {"DNG", "JPEG"} \/ Damaged(c) THEN NoBuiltin ELSE BuiltinFor(c.hint, Camera(c))
LightOf(c, i) ==
  LET v == UIntValue(CalDir(c), 50777 + i) IN
  IF i \notin {1, 2} THEN 0
  ELSE IF CalDir(c).ok /\ v.some /\ v.v \in Lights THEN v.v
  ELSE IF i = 1 /\ BuiltinOf(c).some THEN D65 ELSE 0
(* signed rationals; a builtin matrix is in 1/10000 *)
Given(c, i) ==
  LET d == CalDir(c)  tag == 50720 + i IN
  IF ~d.ok THEN [some |-> FALSE] ELSE IF ~HasTag(d, tag) THEN [some |-> FALSE]
  ELSE LET e == Entry(d, tag)
           b == DW(e)
           m == CASE e.type = TSRat -> e.count [] e.type = TUndef -> e.count \div 8 [] OTHER -> -1
       IN IF m < 0 THEN [some |-> FALSE]
          ELSE [some |-> TRUE, v |-> [j \in 1..m |-> <<U32(b, d.le, 8 * (j - 1)), U32(b, d.le, 8 * (j - 1) + 4)>>]]
MatrixOk(want, q) == Len(q) = Len(want) /\ \A j \in 1..Len(q) : FracOk(q[j], want[j][1], want[j][2])
MatrixVerdict(c, i, o) ==
  LET g == Given(c, i)  b == BuiltinOf(c) IN
  IF i \in {1, 2} /\ g.some
  THEN IF o.st = "ok" /\ o.o = 2 /\ MatrixOk(g.v, o.m) THEN "" ELSE "the file's matrix " \o ToString(i)
  ELSE IF i = 1 /\ b.some
  THEN IF o.st = "ok" /\ o.o = 1 /\ o.m = b.m THEN "" ELSE "the built-in matrix"
  ELSE IF o.st = "err" THEN "" ELSE "a matrix " \o ToString(i)
CalVerdict(c, o) ==
  LET bad == {i \in 0..3 : o.list[i + 1].i # LightOf(c, i) \/ MatrixVerdict(c, i, o.list[i + 1].m) # ""}
      i == CHOOSE x \in bad : \A y \in bad : x <= y
  IN IF bad = {} THEN ""
     ELSE IF o.list[i + 1].i # LightOf(c, i) THEN "illuminant " \o ToString(i) \o " is " \o ToString(o.list[i + 1].i)
     ELSE MatrixVerdict(c, i, o.list[i + 1].m)
(* what comes with the raw image *)
RawCal(c, i, o) ==
  LET g == Given(c, i)  b == BuiltinOf(c)
      m == IF g.some THEN g.v # <<>> ELSE i = 1 /\ b.some
  IN IF ~m THEN o.m = <<>>
     ELSE o.i = LightOf(c, i) /\ IF g.some THEN MatrixOk(g.v, o.m) ELSE o.m = b.m
Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]  id == Camera(c)
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE IF c.hint = "CR3" /\ ~Cr3Of(c).ok THEN ""
     ELSE CASE op[1] = "ids" /\ Damaged(c) -> IF o.st = "err" THEN "" ELSE "the identity of a damaged header"
            [] op[1] = "ids" -> IF o.st = "ok" /\ o.v = id[1] /\ o.c = id[2] /\ o.vid = id[1] THEN ""
                                ELSE "identity " \o ToString(o) \o " instead of " \o ToString(id)
            [] op[1] = "cal" -> CalVerdict(c, o)
            [] op[1] = "raw" -> IF o.st # "ok" THEN "" ELSE IF RawCal(c, 1, o.cm1) /\ RawCal(c, 2, o.cm2) THEN "" ELSE "matrices of the raw image"
            [] OTHER -> "unknown query"
Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
