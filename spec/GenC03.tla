------------------------------- MODULE GenC03 -------------------------------
(* Scenarios of C03: every shape of a chain of up to three directories that  *)
(* hold any of the tags orientation / make / an unnamed one, with the        *)
(* orientation in every type.                                                *)
EXTENDS Build, Json, IOUtils
Orient(t, le) == [tag |-> 274, type |-> t, count |-> 1,
   data |-> CASE t \in {3, 8} -> P16(6, le) [] t \in {4, 9} -> P32(6, le)
              [] t \in {5, 10} -> P32(6, le) \o P32(1, le) [] t = 11 -> <<0, 0, 0, 0>>
              [] t = 12 -> Zeros(8) [] OTHER -> <<6>>]
Make == StrEntry(271, "Pentax")
Odd(le) == [tag |-> 61234, type |-> 3, count |-> 2, data |-> P16(7, le) \o P16(65535, le)]
(* a directory description: set of {"o", "m", "x"} *)
Entries(s, t, le) == (IF "m" \in s THEN <<Make>> ELSE <<>>) \o (IF "o" \in s THEN <<Orient(t, le)>> ELSE <<>>)
                     \o (IF "x" \in s THEN <<Odd(le)>> ELSE <<>>)
RECURSIVE Lay(_, _, _, _)
Lay(ds, off, t, le) ==
  IF ds = <<>> THEN <<>>
  ELSE LET es == Entries(ds[1], t, le)
           size == Len(DirBytes(es, off, 0, le))
           more == Lay(SubSeq(ds, 2, Len(ds)), off + size, t, le)
       IN DirBytes(es, off, IF more = <<>> THEN 0 ELSE off + size, le) \o more
Shapes == {<<a>> : a \in SUBSET {"o", "m", "x"}} \cup {<<a, b>> : a \in SUBSET {"o", "m", "x"}, b \in SUBSET {"o", "m"}}
          \cup {<<{"m"}, b, d>> : b \in SUBSET {"o", "m"}, d \in SUBSET {"o", "x"}}
Keys == << "Exif.Image.Orientation", "Exif.Image.Make", "Exif.Image.", "other.Make", "Exif.Photo.Orientation", "Make", "" >>
Ids == [s : Shapes, t : {3}, le : BOOLEAN] \cup [s : {<<{"o"}>>, <<{"m", "o"}, {"o"}>>}, t : (0..14) \cup {65535}, le : BOOLEAN]
SetStr(s) == (IF "o" \in s THEN "o" ELSE "") \o (IF "m" \in s THEN "m" ELSE "") \o (IF "x" \in s THEN "x" ELSE "")
Name(x) == FoldLeft(LAMBDA a, s : a \o "." \o SetStr(s), "", x.s) \o "-" \o ToString(x.t) \o (IF x.le THEN "le" ELSE "be")
Case(x) == [id |-> "enum" \o Name(x), hint |-> "PEF", mode |-> "mem", kinds |-> <<"Main", "Other", "Other">>,
            file |-> TiffHead(8, x.le) \o Lay(x.s, 8, x.t, x.le),
            ops |-> << <<"meta">>, <<"orient">> >> \o [i \in 1..Len(Keys) |-> <<"get", Keys[i]>>] \o << <<"meta">> >>]
VARIABLE gen
Init == gen = 0
Next == UNCHANGED gen
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({Case(x) : x \in Ids}))
=============================================================================
