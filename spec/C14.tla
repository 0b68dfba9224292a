-------------------------------- MODULE C14 --------------------------------
(* Conformance of rendering.                                                 *)
EXTENDS TraceKit, RawTiff, Render

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

Source(q) == [w |-> q.w, h |-> q.h, data |-> q.data, black |-> q.blacks[1], white |-> q.whites[1], lin |-> <<>>, bpc |-> q.bpc,
              cfa |-> q.cfa, photom |-> q.photom, cms |-> <<[i |-> q.i1, m |-> q.cm1], [i |-> q.i2, m |-> q.cm2]>>]
(* one image, several renderings *)
Direct(c, o) ==
  LET q == c.direct[1]
      s == Source(q)
      v(i) == LET r == o.outs[i] IN
              IF r.st = "ok" /\ ~r.src_same THEN "the source changed" ELSE RenderVerdict(s, q.opts[i][1], q.opts[i][2], r)
      bad == {i \in 1..Len(q.opts) : v(i) # ""}
  IN IF o.st # "ok" THEN o.st
     ELSE IF \E i \in 1..Len(o.outs) : o.outs[i].st = "panic" THEN "panic"
     ELSE IF bad = {} THEN "" ELSE v(CHOOSE i \in bad : \A j \in bad : i <= j)
(* DNG: the levels and matrices of the file *)
Level(d, tag, other) == LET v == UIntArray(d, tag) IN IF v.some THEN v.v[1] ELSE other
Tenths(m, tag) == IF HasTag(m, tag) THEN [i \in 1..Entry(m, tag).count |-> U32(DW(Entry(m, tag)), m.le, 8 * (i - 1))] ELSE <<>>
OfFile(c) ==
  LET r == RawOf(c)
      w == Win(c.file, 0)  ma == MainOf(w, c, c.hint)  d == RawDir(w, c, c.hint)
      lum(tag) == OrElse(UIntValue(ma, tag), 0)
  IN [w |-> r.w, h |-> r.h, data |-> r.data, black |-> Level(d, 50714, 0), white |-> Level(d, 50717, IF r.bpc >= 16 THEN 65535 ELSE Pow2(r.bpc) - 1),
      lin |-> r.lin, bpc |-> r.bpc, cfa |-> r.cfa.name, photom |-> r.photom,
      cms |-> <<[i |-> lum(50778), m |-> Tenths(ma, 50721)], [i |-> lum(50779), m |-> Tenths(ma, 50722)]>>]
File(c, i, o) == LET r == RawOf(c) IN
  IF ~r.ok THEN IF o.st = "err" THEN "" ELSE "an image of no raw data"
  ELSE IF r.type # "RAW" THEN IF o.st = "err" THEN "" ELSE "an image of compressed data"
  ELSE RenderVerdict(OfFile(c), c.ops[i][2], c.ops[i][3], o)
Verdict(c, i) ==
  LET o == c.obs[i] IN
  IF o.st = "panic" THEN o.st
  ELSE IF "direct" \in DOMAIN c THEN Direct(c, o) ELSE File(c, i, o)
Next ==
  /\ k <= Len(C.obs) + 1
  /\ UNCHANGED n
  /\ IF "open" \in DOMAIN C /\ C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.obs) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
