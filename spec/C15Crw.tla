------------------------------- MODULE C15Crw -------------------------------
(* The sensor of a Canon CRW file.                                           *)
EXTENDS Crw, Identity

kColour1 == 50  kShot == 4138  kColour2 == 4140  kWbTable == 4265
CrwCamera(f) ==
  LET r == Rec(f.exif, kModelId)  m == MakeModel(f, 2)
      s == Cams.modelids["CANON"]
      hi == U16(f.w, f.le, IF f.le THEN r.at + 2 ELSE r.at)  lo == U16(f.w, f.le, IF f.le THEN r.at ELSE r.at + 2)
      k == IF ~RecOk(f.w, r) \/ r.len < 4 THEN 0 ELSE SelectInSeq(s, LAMBDA x : x.hi = hi /\ x.lo = lo)
  IN IF k # 0 THEN IdOf(s[k])
     ELSE IF m.ok /\ Printable(m.v) THEN ByName("CANON", Text(m.v), UnknownOf("CRW")) ELSE UnknownOf("CRW")
(* those whose white balance is elsewhere, and scrambled *)
Scrambled(id) == \E x \in {"Canon PowerShot Pro1", "Canon PowerShot G6", "Canon PowerShot S60", "Canon PowerShot S70"} :
                   id = ByName("CANON", x, <<0, 0>>)
InHeap(r) == r.ok /\ ~r.in
Digits == <<0, 1, 3, 4, 5, 6, 7, 0, 2, 8>>
CrwWb(f, id) ==
  LET v(r, i) == U16(f.w, f.le, r.at + i)
      c2 == Rec(f.exif, kColour2)  c1 == Rec(f.exif, kColour1)  sh == Rec(f.exif, kShot)  tb == Rec(f.exif, kWbTable)
      \* the green of the two: both are light per value
      D30(x) == LET g == v(c1, 74)  g2 == v(c1, 76) IN
                IF g = 0 \/ g2 = 0 THEN IF x = 0 THEN {} ELSE {<<1, 0>>} ELSE {<<x * (g + g2), 2 * g * g2>>}
      at == IF Scrambled(id) THEN 96 ELSE 120
      K(x, key) == IF Scrambled(id) THEN x ^^ key ELSE x
      G == K(v(c1, at), 1040)
      t == 2 * (1 + 4 * Digits[Min2(v(sh, 14), 9) + 1])
  IN IF InHeap(c2) /\ v(c2, 0) > 512
     THEN << {<<v(c2, 120), v(c2, 124)>>}, {<<v(c2, 120), v(c2, 126)>>}, {<<1, 1>>}, {<<v(c2, 120), v(c2, 122)>>} >>
     ELSE IF InHeap(c2) /\ v(c2, 0) # 276
     THEN LET g == v(c2, 100) + v(c2, 106) IN << {<<g, 2 * v(c2, 102)>>}, {<<1, 1>>}, {<<g, 2 * v(c2, 104)>>}, {} >>
     ELSE IF InHeap(c1) /\ c1.len = 768 THEN << D30(v(c1, 72)), {<<1, 1>>}, D30(v(c1, 78)), {} >>
     ELSE IF InHeap(c1) /\ c1.len > 768
     THEN << {<<G, K(v(c1, at + 2), 17907)>>}, {<<1, 1>>}, {<<G, K(v(c1, at + 4), 1040)>>}, {} >>
     ELSE IF InHeap(sh) /\ InHeap(tb) THEN << {<<v(tb, t + 2), v(tb, t)>>}, {<<1, 1>>}, {<<v(tb, t + 2), v(tb, t + 6)>>}, {} >>
     ELSE <<>>
CrwVerdict(c, o, skip) ==
  LET f == CiffOf(c)  r == CrwRaw(c, skip)  s == CrwSensorOf(f)
      id == CrwCamera(f)
      b == Builtin("CANON", id)
      v == ImageVerdict(r, o)
      white == IF skip THEN 0 ELSE IF b.some /\ b.white # 0 THEN b.white ELSE MaxOf(r.bpc)
      black == IF skip THEN 0 ELSE IF b.some THEN b.black ELSE 0
  IN IF v # "" \/ ~r.ok THEN v
     ELSE SensorVerdict([aa |-> IF s.ok THEN s.aa ELSE <<>>, crop |-> <<>>, ar |-> <<>>, blacks |-> Quad(black), whites |-> Quad(white),
                         wb |-> CrwWb(f, id), wxy |-> <<>>], o)
=============================================================================
