------------------------------- MODULE GenC04 -------------------------------
(* Scenarios of C04: every sequence of up to three previews with dimensions  *)
(* in a small range, each asked every size around them.                      *)
EXTENDS Build, Json, IOUtils
D4(tag, v, le) == [tag |-> tag, type |-> 4, count |-> 1, data |-> P32(v, le)]
Pix(dim, which) == [i \in 1..(3 * dim) |-> which * 16 + (i % 16)]
Entries(dim, pos, le) == << D4(254, 1, le), D4(256, dim, le), D4(257, 1, le), D4(273, pos, le), D4(279, 3 * dim, le) >>
DirSize == 2 + 12 * 5 + 4
RECURSIVE Lay(_, _, _, _)
Lay(dims, off, le, which) ==
  IF dims = <<>> THEN <<>>
  ELSE LET size == DirSize + 3 * dims[1]
           more == Lay(SubSeq(dims, 2, Len(dims)), off + size, le, which + 1)
       IN DirBytes(Entries(dims[1], off + DirSize, le), off, IF more = <<>> THEN 0 ELSE off + size, le)
          \o Pix(dims[1], which) \o more
Dims == {1, 2, 4, 5}
Lists == {<<>>} \cup {<<a>> : a \in Dims} \cup {<<a, b>> : a, b \in Dims} \cup {<<a, b, d>> : a, b, d \in Dims}
Case(l, le) == [id |-> "enum" \o FoldLeft(LAMBDA a, x : a \o ToString(x), "", l) \o (IF le THEN "le" ELSE "be"),
  hint |-> "DNG", mode |-> "mem", kinds |-> <<"Main">>,
  file |-> TiffHead(8, le) \o (IF l = <<>> THEN DirBytes(<<D4(254, 0, le)>>, 8, 0, le) ELSE Lay(l, 8, le, 1)),
  ops |-> << <<"sizes">> >> \o [i \in 1..7 |-> <<"thumb", i - 1>>]]
VARIABLE gen
Init == gen = 0
Next == UNCHANGED gen
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(l, le) : l \in Lists, le \in BOOLEAN}))
=============================================================================
