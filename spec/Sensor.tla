------------------------------- MODULE Sensor -------------------------------
(* The description of the sensor that goes with a raw image.                 *)
EXTENDS RawTiff

(* s: [aa, crop, ar, blacks, whites, wb]; a rectangle is <<>> or             *)
(* <<x, y, width, height>>; wb is a sequence of sets of fractions            *)
(* <<num, den>>, any of which is fine, or of {} for no value (NaN)           *)
qNaN == 2147483647
qInf == 2147483646
(* <<k, d, 0>> is k / (10000 d), for a k that is more than 20000 *)
FracEq(q, f) == IF Len(f) = 3
                THEN IF f[2] = 0 THEN q = qInf ELSE q <= 2000000000 \div f[2] /\ q * f[2] - f[1] \in (-f[2] - 1)..(f[2] + 1)
                ELSE IF f[2] = 0 THEN IF f[1] = 0 THEN q = qNaN ELSE q = qInf ELSE FracOk(q, f[1], f[2])
WbOk(want, q) ==
  /\ Len(q) = Len(want)
  /\ \A i \in 1..Len(q) : IF want[i] = {} THEN q[i] = qNaN ELSE \E f \in want[i] : FracEq(q[i], f)
SensorVerdict(s, o) ==
  CASE o.aa # s.aa -> "active area " \o ToString(o.aa) \o " instead of " \o ToString(s.aa)
    [] o.crop # s.crop -> "user crop " \o ToString(o.crop) \o " instead of " \o ToString(s.crop)
    [] o.ar # s.ar -> "aspect ratio " \o ToString(o.ar) \o " instead of " \o ToString(s.ar)
    [] o.blacks # s.blacks -> "black levels " \o ToString(o.blacks) \o " instead of " \o ToString(s.blacks)
    [] o.whites # s.whites -> "white levels " \o ToString(o.whites) \o " instead of " \o ToString(s.whites)
    [] ~WbOk(s.wb, o.wb) -> "white balance " \o ToString(o.wb) \o " instead of " \o ToString(s.wb)
    [] OTHER -> ""
Quad(v) == <<v, v, v, v>>
MaxOf(bpc) == IF bpc >= 16 THEN 65535 ELSE Pow2(bpc) - 1
=============================================================================
