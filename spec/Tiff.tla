-------------------------------- MODULE Tiff --------------------------------
(* The TIFF structure of a window: header, directories, entries, values.     *)
EXTENDS Bytes, FiniteSets

TByte == 1  TAscii == 2  TShort == 3  TLong == 4  TRat == 5  TSByte == 6
TUndef == 7  TSShort == 8  TSLong == 9  TSRat == 10  TFloat == 11  TDouble == 12
(* marks an entry whose data lies outside of the file *)
TError == 10000

UnitSize(t) == CASE t \in {3, 8} -> 2
                 [] t \in {4, 9, 11} -> 4
                 [] t \in {5, 10, 12} -> 8
                 [] OTHER -> 1

(* header: "le", "be" or "bad" *)
Order(w) == IF ~Has(w, 0, 4) THEN "bad"
            ELSE IF Sub(w, 0, 4) = <<73, 73, 42, 0>> THEN "le"
            ELSE IF Sub(w, 0, 4) = <<77, 77, 0, 42>> THEN "be"
            ELSE "bad"

(* Is the value stored inside of the entry *)
Inline(t, count) == count >= 0 /\ count <= 4 \div UnitSize(t)

(* The entry at position p of window w; the data origin of offsets is base.  *)
(* type is what the file says, or TError when the data is not in the file.   *)
(* data is the value bytes; off is where the data is (-1 for inline).        *)
EntryAt(w, le, p, base) ==
  LET t == S16(w, le, p + 2)
      c == U32(w, le, p + 4)
      v == U32(w, le, p + 8)
      u == UnitSize(t)
      o == v + base
      fits == /\ c >= 0 /\ v >= 0 /\ v <= WLen(w) /\ o <= WLen(w)
              /\ c <= (WLen(w) - o) \div u
  IN IF Inline(t, c)
     THEN [tag |-> U16(w, le, p), type |-> t, count |-> c, off |-> -1,
           raw |-> Sub(w, p + 8, 4),
           data |-> Sub(w, p + 8, IF t \in 1..12 THEN c * u ELSE 4)]
     ELSE IF fits
     THEN [tag |-> U16(w, le, p), type |-> t, count |-> c, off |-> v,
           raw |-> Sub(w, p + 8, 4), data |-> Sub(w, o, c * u)]
     ELSE [tag |-> U16(w, le, p), type |-> TError, count |-> c, off |-> -1,
           raw |-> Sub(w, p + 8, 4), data |-> Sub(w, p + 8, 4)]

NoDir == [ok |-> FALSE, es |-> <<>>]

(* insert keeping tags sorted, a later duplicate replaces an earlier one *)
InsertEntry(es, e) ==
  LET k == SelectInSeq(es, LAMBDA x : x.tag >= e.tag)
  IN IF k = 0 THEN Append(es, e)
     ELSE IF es[k].tag = e.tag THEN [es EXCEPT ![k] = e]
     ELSE SubSeq(es, 1, k - 1) \o <<e>> \o SubSeq(es, k, Len(es))

(* The directory at offset off of the window *)
DirAt(w, le, off, base, kind) ==
  IF off < 0 \/ ~Has(w, off, 2) THEN NoDir
  ELSE LET n == U16(w, le, off)
       IN IF ~Has(w, off + 2, 12 * n + 4) THEN NoDir
          ELSE [ok |-> TRUE, le |-> le, kind |-> kind, base |-> base,
                es |-> FoldLeft(LAMBDA a, i : InsertEntry(a, EntryAt(w, le, off + 2 + 12 * (i - 1), base)),
                                <<>>, [i \in 1..n |-> i]),
                next |-> U32(w, le, off + 2 + 12 * n)]

EntryIdx(d, tag) == SelectInSeq(d.es, LAMBDA e : e.tag = tag)
HasTag(d, tag) == d.ok /\ EntryIdx(d, tag) # 0
Entry(d, tag) == d.es[EntryIdx(d, tag)]

(* values of an entry, seen as units of type t *)
DW(e) == Win(e.data, 0)
U16s(e, le) == [i \in 1..e.count |-> U16(DW(e), le, 2 * (i - 1))]
S16s(e, le) == [i \in 1..e.count |-> S16(DW(e), le, 2 * (i - 1))]
U32s(e, le) == [i \in 1..e.count |-> U32(DW(e), le, 4 * (i - 1))]
Pairs(e, le) == [i \in 1..(2 * e.count) |-> U32(DW(e), le, 4 * (i - 1))]

(* value 0 of LONG typed (or untyped) entry, as an option *)
Some(v) == [some |-> TRUE, v |-> v]
None == [some |-> FALSE, v |-> 0]
LongValue(d, tag) ==
  IF HasTag(d, tag) /\ Entry(d, tag).type \in {TLong, TUndef} /\ Entry(d, tag).count > 0
  THEN LET e == Entry(d, tag) IN
       IF e.off = -1 THEN Some(U32(Win(e.raw, 0), d.le, 0))
       ELSE IF Len(e.data) >= 4 THEN Some(U32(DW(e), d.le, 0)) ELSE None
  ELSE None

(* unsigned integer value 0, from SHORT, LONG or RATIONAL *)
UIntValue(d, tag) ==
  IF ~HasTag(d, tag) \/ Entry(d, tag).count = 0 THEN None
  ELSE LET e == Entry(d, tag) IN
    CASE e.type = TShort -> Some(U16s(e, d.le)[1])
      [] e.type = TLong -> Some(U32s(e, d.le)[1])
      [] e.type = TRat -> LET p == Pairs(e, d.le) IN
                          IF p[2] = 0 THEN Some(0) ELSE Some(p[1] \div p[2])
      [] OTHER -> None
UIntArray(d, tag) ==
  IF ~HasTag(d, tag) THEN [some |-> FALSE, v |-> <<>>]
  ELSE LET e == Entry(d, tag) IN
    CASE e.type = TShort -> [some |-> TRUE, v |-> U16s(e, d.le)]
      [] e.type = TLong -> [some |-> TRUE, v |-> U32s(e, d.le)]
      [] e.type = TRat -> LET p == Pairs(e, d.le) IN
           [some |-> TRUE, v |-> [i \in 1..e.count |-> IF p[2*i] = 0 THEN 0 ELSE p[2*i-1] \div p[2*i]]]
      [] OTHER -> [some |-> FALSE, v |-> <<>>]
IntArray(d, tag) ==
  IF ~HasTag(d, tag) THEN [some |-> FALSE, v |-> <<>>]
  ELSE LET e == Entry(d, tag) IN
    CASE e.type = TSShort -> [some |-> TRUE, v |-> S16s(e, d.le)]
      [] e.type = TSLong -> [some |-> TRUE, v |-> U32s(e, d.le)]
      [] OTHER -> [some |-> FALSE, v |-> <<>>]

AsciiValue(d, tag) ==
  IF HasTag(d, tag) /\ Entry(d, tag).type = TAscii THEN [some |-> TRUE, v |-> CStr(Entry(d, tag).data)]
  ELSE [some |-> FALSE, v |-> <<>>]

(* The chain of directories; a chain that comes back on itself ends there. *)
RECURSIVE ChainFrom(_, _, _, _, _)
ChainFrom(w, le, off, seen, kinds) ==
  IF off = 0 \/ off \in seen THEN <<>>
  ELSE LET k == Cardinality(seen) + 1
           kind == IF k <= Len(kinds) THEN kinds[k] ELSE "Other"
           d == DirAt(w, le, off, 0, kind)
       IN IF ~d.ok THEN <<>>
          ELSE <<d>> \o ChainFrom(w, le, d.next, seen \cup {off}, kinds)
ChainFor(w, order, kinds) ==
  IF order = "bad" \/ ~Has(w, 4, 4) THEN <<>>
  ELSE ChainFrom(w, order = "le", U32(w, order = "le", 4), {}, kinds)
Chain(w, kinds) == ChainFor(w, Order(w), kinds)

(* the signatures that stand for a TIFF header in each format *)
OrderFor(w, ty) ==
  IF ~Has(w, 0, 4) THEN "bad"
  ELSE CASE ty = "RW2" -> IF Sub(w, 0, 4) = <<73, 73, 85, 0>> THEN "le" ELSE "bad"
         [] ty = "ORF" -> IF Sub(w, 0, 3) = <<73, 73, 82>> /\ B(w, 3) \in {79, 83} THEN "le"
                          ELSE IF Sub(w, 0, 2) = <<77, 77>> /\ B(w, 3) = 82 /\ B(w, 2) \in {79, 83} THEN "be" ELSE "bad"
         [] OTHER -> Order(w)

Dir0(w) == LET c == Chain(w, <<"Main">>) IN IF Len(c) = 0 THEN NoDir ELSE c[1]
=============================================================================
