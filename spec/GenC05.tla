------------------------------- MODULE GenC05 -------------------------------
(* Scenarios of C05: every bit depth, plain encoding, byte order, number of  *)
(* strips and small width, two rows.                                         *)
EXTENDS Build, Json, IOUtils
D(tag, t, v, le) == [tag |-> tag, type |-> t, count |-> 1, data |-> IF t = 3 THEN P16(v, le) ELSE P32(v, le)]
Many(tag, vs, le) == [tag |-> tag, type |-> 4, count |-> Len(vs), data |-> Concat([i \in 1..Len(vs) |-> P32(vs[i], le)])]
Row(bits, comp, w) == IF comp = 32769 /\ bits = 12 THEN (w \div 10) * 16 ELSE (w * bits + 7) \div 8
Pix(n) == [i \in 1..n |-> (i * 73 + 29 * (i \div 7)) % 256]
(* bits, width, strips (1 or 2, the second one first in the file), extra: bytes more or less than the image *)
File(bits, comp, w, strips, extra, le) ==
  LET n == 2 * Row(bits, comp, w) + extra
      k == n \div 2 + 1
      nent == 7
      base == 8 + 2 + 12 * nent + 4 + (IF strips = 2 THEN 16 ELSE 0)
      offs == IF strips = 1 THEN <<base>> ELSE <<base + (n - k) + 1, base>>
      cnts == IF strips = 1 THEN <<n>> ELSE <<k, n - k>>
      p == Pix(n)
      es == << D(254, 4, 0, le), D(256, 3, w, le), D(257, 4, 2, le), D(258, 3, bits, le), D(259, 3, comp, le),
               Many(273, offs, le), Many(279, cnts, le) >>
  IN TiffHead(8, le) \o DirBytes(es, 8, 0, le)
     \o (IF strips = 1 THEN p ELSE SubSeq(p, k + 1, n) \o <<165>> \o SubSeq(p, 1, k))
Params == {q \in {8, 10, 12, 14, 16} \X {1, 32769, 32773} \X {1, 2, 3, 4, 5, 10} \X {1, 2} \X {-1, 0, 2} \X BOOLEAN : Row(q[1], q[2], q[3]) > 0}
Case(bits, comp, w, strips, extra, le) == [id |-> "enum" \o ToString(bits) \o "-" \o ToString(comp) \o "-" \o ToString(w) \o "-" \o ToString(strips) \o "-"
             \o ToString(extra) \o (IF le THEN "le" ELSE "be"),
           file |-> File(bits, comp, w, strips, extra, le), hint |-> "DNG", mode |-> "mem", kinds |-> <<"Main">>,
           ops |-> << <<"raw", TRUE>> >>]
Cases == {Case(q[1], q[2], q[3], q[4], q[5], q[6]) : q \in Params}
VARIABLE gen
Init == gen = 0
Next == UNCHANGED gen
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
