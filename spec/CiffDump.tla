------------------------------ MODULE CiffDump ------------------------------
(* The dump of a Canon CIFF file: its header, then the tree of its heaps, the *)
(* records of each in the order of their codes.                              *)
EXTENDS Ciff

(* the codes that are told apart; all others count as one, the last *)
KnownCodes == { 0, 1, 6, 50, 54, 63, 64, 65, 2053, 2058, 2059, 2060, 2061, 2064, 2069, 
    2070, 2071, 4106, 4112, 4113, 4116, 4118, 4124, 4134, 4136, 4137, 4138, 
    4140, 4141, 4144, 4145, 4147, 4152, 4153, 4156, 4223, 4243, 4264, 4265, 
    4266, 4269, 4270, 4271, 4276, 4277, 4288, 4289, 4290, 6147, 6148, 6149, 
    6150, 6151, 6155, 6158, 6160, 6162, 6163, 6164, 6167, 6168, 6169, 6196, 
    6197, 6203, 8197, 8199, 8200, 10244, 10247, 12290, 12291, 12292, 12298, 
    12299 }
cOther == 65535
CodeOf(r) == IF r.code \in KnownCodes THEN r.code ELSE cOther
KindOf(code) == CASE code = cOther -> "Unknown"
                  [] OTHER -> (<<"Byte", "Ascii", "Word", "DWord", "Byte2", "Heap1", "Heap2", "Unknown">>)[((code \div 2048) % 8) + 1]
(* the records of a heap: of those of a code, the last *)
RecordsOf(h) ==
  LET codes == {CodeOf(h.rs[i]) : i \in 1..Len(h.rs)}
      last(k) == LET c == SelectSeq(h.rs, LAMBDA r : CodeOf(r) = k) IN c[Len(c)]
      ks == SetToSortSeq(codes, LAMBDA a, b : a < b)
  IN [i \in 1..Len(ks) |-> [last(ks[i]) EXCEPT !.code = ks[i]]]
NonEmpty(ss) == SelectSeq(ss, LAMBDA s : s # <<>>)
FirstPart(s) == Parts(s)[1]
(* the values of a record, as they are listed *)
RecStrings(w, r) == IF KindOf(r.code) # "Ascii" THEN <<>>
                    ELSE IF r.in THEN NonEmpty(<<FirstPart(Sub(w, r.at, 8))>>)
                    ELSE IF Has(w, r.at, r.len) THEN NonEmpty(Parts(Sub(w, r.at, r.len))) ELSE <<>>
RecNumbers(w, le, r) ==
  LET k == KindOf(r.code) IN
  IF k \notin {"Word", "DWord"} \/ ~Has(w, r.at, r.len) THEN [some |-> FALSE, v |-> <<>>]
  ELSE [some |-> TRUE, v |-> IF k = "Word" THEN [i \in 1..(r.len \div 2) |-> U16(w, le, r.at + 2 * (i - 1))]
                             ELSE [i \in 1..(r.len \div 4) |-> U32(w, le, r.at + 4 * (i - 1))]]
MaxDepth == 4
(* the heap at pos, which is d levels down on the page and at a depth in the tree *)
RECURSIVE HeapItems(_, _, _, _, _, _)
HeapItems(w, le, pos, len, d, depth) ==
  LET h == Heap(w, le, pos, len)
      rs == RecordsOf(h)
      one(r) ==
        LET k == KindOf(r.code)  num == RecNumbers(w, le, r) IN
        <<[x |-> "rec", d |-> d + 1, code |-> r.code, ty |-> k, in |-> r.in, pos |-> IF r.in THEN -1 ELSE r.at, n |-> IF r.in THEN -1 ELSE r.len,
           ss |-> RecStrings(w, r), has |-> num.some, v |-> num.v,
           count |-> IF k \in {"Byte", "Byte2"} /\ ~r.in THEN r.len ELSE -1]>>
        \o (IF k \in {"Heap1", "Heap2"} /\ ~r.in /\ depth < MaxDepth THEN HeapItems(w, le, r.at, r.len, d + 2, depth + 1) ELSE <<>>)
  IN IF ~h.ok THEN <<>>
     ELSE <<[x |-> "heap", d |-> d, pos |-> pos, len |-> len, n |-> Len(rs)]>> \o Concat([i \in 1..Len(rs) |-> one(rs[i])])
(* the header *)
CiffHeader(w, le) == [x |-> "ciff", d |-> 2, e |-> IF le THEN "Little" ELSE "Big", len |-> U32(w, le, 2), ty |-> Sub(w, 6, 4), sub |-> Sub(w, 10, 4),
                    hi |-> IF le THEN U16(w, le, 16) ELSE U16(w, le, 14), lo |-> IF le THEN U16(w, le, 14) ELSE U16(w, le, 16)]
CrwItems(c) ==
  LET f == CiffOf(c)  n == U32(f.w, f.le, 2) IN
  IF ~f.ok THEN <<>>
  ELSE <<CiffHeader(f.w, f.le)>> \o (IF n < 0 \/ n > WLen(f.w) THEN <<>> ELSE HeapItems(f.w, f.le, n, WLen(f.w) - n, 2, 0))
Same(s, t) == ~Printable(s) \/ 34 \in Range(s) \/ 92 \in Range(s) \/ Text(s) = t
CiffItemBad(x, o) ==
  IF x.x # o.x THEN "dump: " \o o.x \o " where " \o x.x \o " is expected"
  ELSE CASE x.x = "ciff" -> IF o.d # x.d \/ o.e # x.e \/ o.len # x.len \/ o.hi # x.hi \/ o.lo # x.lo \/ ~Same(x.ty, o.ty) \/ ~Same(x.sub, o.sub) THEN "dump: the header" ELSE ""
         [] x.x = "heap" -> IF o # x THEN "dump: the heap at " \o ToString(x.pos) ELSE ""
         [] OTHER -> IF \E k \in {"d", "code", "ty", "in", "n", "has", "v", "count"} : o[k] # x[k] THEN "dump: record " \o ToString(x.code)
                     ELSE IF x.pos # o.pos /\ (x.in \/ x.pos # -1) THEN "dump: the place of record " \o ToString(x.code)
                     ELSE IF Len(x.ss) # Len(o.ss) \/ \E i \in 1..Min2(Len(x.ss), Len(o.ss)) : Printable(x.ss[i]) /\ Text(x.ss[i]) # o.ss[i] THEN "dump: the strings of record " \o ToString(x.code)
                     ELSE ""
(* a record whose place does not fit in 32 bits may be there or not *)
Loose(w, le, xs) == \E i \in 1..Len(xs) : xs[i].x = "rec" /\ ~xs[i].in /\ xs[i].pos = -1
CrwDumpVerdict(c, o) ==
  LET xs == TLCEval(CrwItems(c))
      got == SelectSeq(o.items, LAMBDA i : i.x \in {"ciff", "heap", "rec"})
  IN IF Loose(Win(c.file, 0), TRUE, xs) THEN ""
     ELSE IF Len(got) # Len(xs) THEN "dump: " \o ToString(Len(got)) \o " heaps and records instead of " \o ToString(Len(xs))
     ELSE FirstBad([i \in 1..Len(xs) |-> CiffItemBad(xs[i], got[i])])
=============================================================================
