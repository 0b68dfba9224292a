-------------------------------- MODULE Cr2 --------------------------------
(* The raw image of a CR2 file, of the fourth directory, and of the TIFF     *)
(* files of the first EOS-1D models, where the maker note says where it is.  *)
EXTENDS SensorTiff

(* where the stream is, and the slices it was cut in *)
Cr2Stream(c) ==
  LET w == Win(c.file, 0)
      old == OldCanon(TiffCamera(c))
      n == FileNote(w, c, "CR2")
      d == Cr2Dir(w, c)
      from == IF old THEN UIntValue(n, 129) ELSE LongValue(d, 273)
      len == IF old THEN UIntValue(n, 130) ELSE LongValue(d, 279)
      sl == UIntArray(d, 50752)
  IN IF old
     THEN [ok |-> n.ok /\ from.some,
           data |-> IF n.ok /\ from.some THEN Cut(w, from.v, IF len.some THEN len.v ELSE -1) ELSE <<>>, slices |-> <<>>]
     ELSE LET ok == d.ok /\ from.some /\ len.some IN
          [ok |-> ok, data |-> IF ok THEN Cut(w, from.v, len.v) ELSE <<>>, slices |-> IF sl.some /\ Len(sl.v) >= 3 THEN SubSeq(sl.v, 1, 3) ELSE <<>>]
(* the image when it isn't to be decoded *)
Cr2Image(c) ==
  LET r == Cr2Raw(c, 8)  s == Cr2Stream(c) IN
  IF ~s.ok THEN Failed
  ELSE [ok |-> TRUE, w |-> r.w, h |-> r.h, bpc |-> 8, comp |-> 0, tsz |-> <<>>, photom |-> 32803,
        cfa |-> [some |-> TRUE, name |-> r.cfa, v |-> IF r.cfa = "GBRG" THEN <<1, 2, 0, 1>> ELSE <<0, 1, 1, 2>>],
        lin |-> <<>>, type |-> "COMP_RAW", dk |-> "8", data |-> s.data]
=============================================================================
