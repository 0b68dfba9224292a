-------------------------------- MODULE A100 --------------------------------
(* Sony DSLR-A100 files: a TIFF file whose main directory points, by the     *)
(* "sub directory" tag, at the raw data itself, and, by the private data     *)
(* tag, at a little endian Minolta header that describes it.                 *)
EXTENDS Minolta, SensorTiff

A100Main(c) == MainOf(Win(c.file, 0), c, "ARW")
IsA100(c) == c.hint = "ARW" /\ AsciiValue(A100Main(c), 272) = [some |-> TRUE, v |-> sA100]
(* where the header is: the first four bytes of the private data, always little endian; -1 if there is none *)
A100At(d) == LET p == ByteArray(d, 50740) IN
  IF ~p.some \/ Len(p.v) < 4 THEN -1 ELSE U32(Win(p.v, 0), TRUE, 0)
A100Raw(c) ==
  LET d == A100Main(c)
      from == UIntValue(d, 330)
      at == A100At(d)
      w == Win(c.file, at)
      h == MrwHeader(w, TRUE)
      i == MrwInfo(w, TRUE, h)
      pix == IF i.w # 0 /\ i.h > 500000000 \div i.w THEN 500000000 ELSE i.w * i.h
  IN IF ~d.ok \/ ~from.some \/ at < 0 \/ at > Len(c.file) THEN Failed
     ELSE IF ~h.ok THEN Failed
     ELSE IF ~i.ok THEN Failed
     ELSE [ok |-> TRUE, w |-> i.w, h |-> i.h, bpc |-> i.bpc, comp |-> 0, tsz |-> <<>>, photom |-> 32803,
           cfa |-> i.cfa, lin |-> <<>>, type |-> "COMP_RAW", dk |-> "8", data |-> Cut(Win(c.file, 0), from.v, 2 * pix)]
A100Sensor(c) ==
  LET w == Win(c.file, A100At(A100Main(c)))
      h == MrwHeader(w, TRUE)
      i == MrwInfo(w, TRUE, h)
  IN [aa |-> <<>>, crop |-> <<>>, ar |-> <<>>, blacks |-> Quad(0), whites |-> Quad(0), wb |-> MrwWb(w, TRUE, h, i), wxy |-> <<>>]
=============================================================================
