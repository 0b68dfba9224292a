------------------------------- MODULE GenC02 -------------------------------
(* Scenarios of C02 enumerated from the specification: every type (known or  *)
(* not) with every small count, in both byte orders, in line, out of line or *)
(* out of the file, between two entries that must not be affected.           *)
EXTENDS Build, Json, IOUtils

Kinds == (0..14) \cup {10000, 32769, 65535}
Counts == 0..9
Sized(t) == Unit(t)
Pat(m) == [i \in 1..m |-> (37 * i + 11 * m + 140) % 256]
Body(t, c) == IF t = 2 THEN [i \in 1..c |-> IF i = c THEN 0 ELSE 64 + (i % 26)]
              ELSE IF t \in {5, 10} THEN [i \in 1..(8 * c) |-> IF i % 4 = 1 THEN i % 251 ELSE 0]
              ELSE Pat(c * Sized(t))
First(le) == [tag |-> 271, type |-> 2, count |-> 6, data |-> AsciiZ("Maker")]
After(le) == [tag |-> 40000, type |-> 3, count |-> 3, data |-> P16(1, le) \o P16(513, le) \o P16(65535, le)]
Ent(t, c) == [tag |-> 33434, type |-> t, count |-> c, data |-> Body(t, c)]
Place(b, at, x) == [i \in 1..Len(b) |-> IF i > at /\ i <= at + Len(x) THEN x[i - at] ELSE b[i]]
File(t, c, le, where) ==
  LET f == TiffHead(8, le) \o DirBytes(<<First(le), Ent(t, c), After(le)>>, 8, 0, le)
  IN CASE where = "in" -> f
       (* the offset of the value points one unit too far or way out *)
       [] where = "cut" -> Place(f, 8 + 2 + 12 + 8, P32(Len(f) - Sized(t) * c + 1, le))
       [] where = "out" -> Place(f, 8 + 2 + 12 + 8, P32(2147483600, le))
Ids == [le : BOOLEAN, t : Kinds, c : Counts, where : {"in", "cut", "out"}]
Chosen == {x \in Ids : x.where = "in" \/ x.c * Sized(x.t) > 4}
Case(x) == [id |-> "enum-" \o ToString(x.t) \o "x" \o ToString(x.c) \o x.where \o (IF x.le THEN "le" ELSE "be"),
            file |-> File(x.t, x.c, x.le, x.where), hint |-> "DNG", mode |-> "mem", kinds |-> <<"Main">>,
            ops |-> << <<"ifd", "main">>, <<"dump", TRUE>> >>]
VARIABLE gen
Init == gen = 0
Next == UNCHANGED gen
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(x) : x \in Chosen}))
=============================================================================
