------------------------------ MODULE Identity ------------------------------
(* Which camera a file is from, and what is built in for that camera.        *)
EXTENDS RawTiff

Cams == JsonDeserialize("data/cameras.json")
IdOf(x) == <<x.v, x.c>>
VendorOf(ty) == CASE ty \in {"CR2", "CR3", "CRW"} -> 1 [] ty = "NEF" -> 2 [] ty = "PEF" -> 4 [] ty = "ERF" -> 5
                  [] ty = "MRW" -> 6 [] ty = "ORF" -> 7 [] ty = "ARW" -> 8 [] ty = "RW2" -> 11 [] ty = "DNG" -> 13
                  [] ty = "RAF" -> 14 [] OTHER -> 0
UnknownOf(ty) == <<VendorOf(ty), IF ty = "DNG" THEN 1 ELSE 0>>
(* by the name of the model, which has to be that one exactly *)
ByName(table, name, unknown) ==
  LET s == Cams.models[table]  k == SelectInSeq(s, LAMBDA x : x.name = name)
  IN IF k = 0 THEN unknown ELSE IdOf(s[k])
(* by a 32 bit number *)
ById(table, id, unknown) ==
  LET hi == (id \div 65536) % 65536  lo == id % 65536
      s == Cams.modelids[table]  k == SelectInSeq(s, LAMBDA x : x.hi = hi /\ x.lo = lo)
  IN IF k = 0 THEN unknown ELSE IdOf(s[k])
(* the directory entry that names the model *)
ModelName(m) == IF HasTag(m, 272) THEN AsciiValue(m, 272) ELSE AsciiValue(m, 50708)
ByModel(ty, m) == LET n == ModelName(m) IN
  IF m.ok /\ n.some /\ Printable(n.v) THEN ByName(ty, Text(n.v), UnknownOf(ty)) ELSE UnknownOf(ty)
TiffCamera(c) ==
  LET w == Win(c.file, 0)  ty == c.hint
      m == MainOf(w, c, ty)
      n == FileNote(w, c, ty)
      id == IF ~n.ok THEN None ELSE IF ty = "ARW" THEN UIntValue(n, 45057) ELSE IF ty = "PEF" THEN UIntValue(n, 5)
            ELSE IF ty = "CR2" THEN LongValue(n, 16) ELSE None
  IN IF id.some THEN ById(IF ty = "CR2" THEN "CANON" ELSE ty, id.v, UnknownOf(ty))
     ELSE IF ty = "CR2" THEN UnknownOf(ty)
     ELSE ByModel(ty, m)
(* what is built in for a camera *)
NoBuiltin == [some |-> FALSE]
Builtin(table, id) ==
  IF table \notin DOMAIN Cams.matrices THEN NoBuiltin
  ELSE LET s == Cams.matrices[table]  k == SelectInSeq(s, LAMBDA x : IdOf(x) = id)
       IN IF k = 0 THEN NoBuiltin ELSE [some |-> TRUE, black |-> s[k].black, white |-> s[k].white, m |-> s[k].m]
BuiltinFor(ty, id) == Builtin(IF ty \in {"CR2", "CR3", "CRW"} THEN "CANON" ELSE ty, id)
=============================================================================
