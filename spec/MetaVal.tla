------------------------------- MODULE MetaVal -------------------------------
(* What the value of an entry is: its kind and its units, its text forms and *)
(* its conversions.                                                          *)
EXTENDS Tiff, TagNames

(* kinds of the typed accessors *)
KindName == << "byte", "ascii", "short", "long", "rat", "sbyte", "undef",
               "sshort", "slong", "srat", "float", "double" >>
(* text is stored as bytes; what isn't UTF-8 is replaced (the scenarios only *)
(* use bytes that are, each on its own, invalid).                            *)
Utf8(s) == FoldLeft(LAMBDA a, c : IF c < 128 THEN Append(a, c) ELSE a \o <<239, 191, 189>>, <<>>, s)
AsciiOf(e) == Utf8(CStr(e.data))
S8s(s) == [i \in 1..Len(s) |-> S8v(s[i])]

(* units of an entry as integers (floats as bit patterns) *)
Units(e, le) ==
  CASE e.type \in {TByte, TUndef} -> e.data
    [] e.type = TAscii -> AsciiOf(e)
    [] e.type = TSByte -> S8s(e.data)
    [] e.type = TShort -> U16s(e, le)
    [] e.type = TSShort -> S16s(e, le)
    [] e.type \in {TLong, TSLong, TFloat} -> U32s(e, le)
    [] e.type \in {TRat, TSRat} -> Pairs(e, le)
    (* a double is two words, the high one first *)
    [] e.type = TDouble ->
         LET p == Pairs(e, le) IN
         [i \in 1..(2 * e.count) |-> IF le THEN p[IF i % 2 = 1 THEN i + 1 ELSE i - 1] ELSE p[i]]
    [] OTHER -> e.data

(* the text of each unit *)
UnitTexts(e, le) ==
  CASE e.type \in {TByte, TUndef, TSByte, TShort, TSShort, TSLong}
         \/ e.type \notin 1..12 -> LET u == Units(e, le) IN [i \in 1..Len(u) |-> ToString(u[i])]
    [] e.type = TLong -> LET u == Units(e, le) IN [i \in 1..Len(u) |-> UDec(u[i])]
    [] e.type = TRat -> LET p == Pairs(e, le) IN
                        [i \in 1..e.count |-> UDec(p[2*i-1]) \o "/" \o UDec(p[2*i])]
    [] e.type = TSRat -> LET p == Pairs(e, le) IN
                        [i \in 1..e.count |-> ToString(p[2*i-1]) \o "/" \o ToString(p[2*i])]
    [] OTHER -> <<>>

(* the form of the values in the metadata interface *)
MetaKind(e) == CASE e.type \in {TByte, TUndef} -> "bytes"
                 [] e.type = TAscii -> "str"
                 [] e.type \in {TShort, TLong} -> "int"
                 [] e.type \in {TSShort, TSLong} -> "sint"
                 [] e.type = TRat -> "rat"
                 [] e.type = TSRat -> "srat"
                 [] e.type = TSByte -> "sbytes"
                 [] e.type = TFloat -> "float"
                 [] e.type = TDouble -> "double"
                 [] OTHER -> "invalid"
MetaUnits(e, le) == IF e.type = TAscii THEN Append(AsciiOf(e), 0) ELSE Units(e, le)
MetaCount(e, le) == CASE e.type = TAscii -> 1
                      [] e.type \in {TRat, TSRat, TDouble} -> e.count
                      [] OTHER -> Len(Units(e, le))
Printable(s) == \A i \in 1..Len(s) : s[i] \in 32..126

Join(ts) == FoldLeft(LAMBDA a, t : a \o t \o ", ", "", ts)
FullText(ts) == CASE Len(ts) = 0 -> "" [] Len(ts) = 1 -> ts[1] [] OTHER -> "[ " \o Join(ts) \o "]"
ShortText(ts) == IF Len(ts) <= 20 THEN FullText(ts)
                 ELSE "[ " \o Join(SubSeq(ts, 1, 21)) \o "...]"
IsFloat(e) == e.type \in {TFloat, TDouble}

(* verdict on a reported metadata value o for entry e *)
ValueVerdict(e, le, o) ==
  LET ts == UnitTexts(e, le)
      u == MetaUnits(e, le)
  IN CASE o.k # MetaKind(e) -> "kind " \o o.k \o " of type " \o ToString(e.type)
       [] o.v # u -> "values of tag " \o ToString(e.tag)
       [] o.n # MetaCount(e, le) -> "count of tag " \o ToString(e.tag)
       [] e.type = TAscii /\ Len(o.s) # 1 -> "no string"
       [] e.type = TAscii /\ Printable(AsciiOf(e))
            /\ (o.s[1] # Text(AsciiOf(e)) \/ o.full # o.s[1] \/ o.short # o.s[1]) -> "text of string"
       [] e.type # TAscii /\ Len(o.s) # 0 -> "string of a number"
       [] e.type # TAscii /\ ~IsFloat(e) /\ o.full # FullText(ts) -> "full text of tag " \o ToString(e.tag)
       [] e.type # TAscii /\ ~IsFloat(e) /\ o.short # ShortText(ts) -> "short text of tag " \o ToString(e.tag)
       [] o.int # (IF e.type \in {TShort, TLong} /\ Len(u) > 0 THEN <<u[1]>> ELSE <<>>) -> "integer of tag " \o ToString(e.tag)
       [] o.rat # (IF e.type = TRat /\ Len(u) > 0 THEN <<u[1], u[2]>> ELSE <<>>) -> "rational of tag " \o ToString(e.tag)
       [] OTHER -> ""

(* ---- the typed accessors of a directory ---- *)
(* fixed point x 10^4 of a fraction, checked with a tolerance *)
FracOk(q, num, den) ==
  IF den = 0 THEN q = 2147483647
  ELSE IF num \in -20000..20000 /\ den \in -20000..20000 /\ q \in -200000000..200000000
  THEN LET a == IF den < 0 THEN -den ELSE den
           b == IF den < 0 THEN -num ELSE num
           i == q \div 10000  r == q % 10000
           (* q*a - b*10000, in two parts so that it fits *)
           d == (i * a - b)
       IN IF d \in -20001..20001 THEN LET x == d * 10000 + r * a IN x <= a /\ x >= -a ELSE FALSE
  ELSE TRUE
FloatsOk(e, le, fa) ==
  CASE e.type = TShort -> fa.some /\ fa.v = [i \in 1..e.count |-> U16s(e, le)[i] * 10000]
    [] e.type = TLong -> fa.some /\ fa.v = [i \in 1..e.count |-> LET v == U32s(e, le)[i] IN
                                IF v \in 0..214748 THEN v * 10000 ELSE 2147483646]
    [] e.type \in {TRat, TSRat} -> fa.some /\ Len(fa.v) = e.count
         /\ \A i \in 1..e.count : FracOk(fa.v[i], Pairs(e, le)[2*i-1], Pairs(e, le)[2*i])
    [] e.type \in {TFloat, TDouble} -> fa.some /\ Len(fa.v) = e.count
    [] OTHER -> ~fa.some
(* rationals whose integer value needs a wider division are left out *)
BigRat(e, le) == e.type = TRat /\ \E i \in 1..Len(Pairs(e, le)) : Pairs(e, le)[i] < 0
OptSeq(o) == IF o.some THEN <<o.v>> ELSE <<>>
EntryVerdict(d, e, table, o) ==
  LET le == d.le
      known == e.type \in 1..12
      cnt == IF known THEN e.count ELSE 0
  IN CASE o.st # "ok" -> "query of tag " \o ToString(e.tag) \o " " \o o.st
       [] o.k # (IF cnt = 0 THEN "none" ELSE KindName[e.type]) -> "type of tag " \o ToString(e.tag) \o " is " \o o.k
       [] o.v # (IF cnt = 0 THEN <<>> ELSE Units(e, le)) -> "values of tag " \o ToString(e.tag)
       [] ~BigRat(e, le) /\ o.uv # OptSeq(UIntValue(d, e.tag)) -> "integer value of tag " \o ToString(e.tag)
       [] ~BigRat(e, le) /\ o.ua # UIntArray(d, e.tag) -> "integers of tag " \o ToString(e.tag)
       [] o.ia # IntArray(d, e.tag) -> "signed integers of tag " \o ToString(e.tag)
       [] ~FloatsOk(e, le, o.fa) -> "floats of tag " \o ToString(e.tag)
       [] Len(o.s) # (IF e.type = TAscii THEN 1 ELSE 0) -> "string of tag " \o ToString(e.tag)
       [] e.type = TAscii /\ Printable(AsciiOf(e)) /\ o.s[1] # Text(AsciiOf(e)) -> "string of tag " \o ToString(e.tag)
       [] o.name # NameIn(table, e.tag) -> "name of tag " \o ToString(e.tag) \o " " \o o.name
       [] OTHER -> ""
FirstBad(vs) == LET k == SelectInSeq(vs, LAMBDA v : v # "") IN IF k = 0 THEN "" ELSE vs[k]
DirVerdict(d, id, table, o) ==
  IF ~d.ok THEN IF o.st = "none" THEN "" ELSE "directory reported that is not in the file"
  ELSE IF o.st # "ok" THEN "directory not reported: " \o o.st
  ELSE IF o.id # id \/ o.type # d.kind \/ o.le # d.le \/ o.n # Len(d.es) \/ o.next # d.next
  THEN "description of directory " \o id
  ELSE IF [i \in 1..Len(o.entries) |-> o.entries[i].tag] # [i \in 1..Len(d.es) |-> d.es[i].tag]
  THEN "tags of directory " \o id
  ELSE FirstBad([i \in 1..Len(d.es) |-> EntryVerdict(d, d.es[i], table, o.entries[i])])

(* ---- the dump ---- *)
TypeName == << "BYTE", "ASCII", "SHORT", "LONG", "RATIONAL", "SBYTE", "UNDEFINED",
               "SSHORT", "SLONG", "SRATIONAL", "FLOAT", "DOUBLE", "INVALID" >>
DumpArray(ts) ==
  IF Len(ts) = 1 THEN ts[1]
  ELSE LET m == Min2(Len(ts), 6)
       IN "[ " \o FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN ", " ELSE "") \o ts[i], "", [i \in 1..m |-> i])
          \o (IF Len(ts) > 6 THEN ", ..." ELSE "") \o " ]"
DumpValue(e, le) ==
  CASE e.type = TAscii -> "\"" \o Text(AsciiOf(e)) \o "\""
    [] e.type = 13 -> "INVALID"
    [] e.type = TError -> "ERROR"
    [] e.type \notin 1..13 -> ToString(e.type)
    [] OTHER -> DumpArray(UnitTexts(e, le))
DumpEntryVerdict(d, e, table, o) ==
  LET t == IF e.type = TError THEN 0 ELSE e.type
      tn == IF e.type \in 1..13 THEN TypeName[e.type] ELSE "ERROR"
  IN CASE o.tag # e.tag -> "dump: tag " \o ToString(o.tag) \o " instead of " \o ToString(e.tag)
       [] o.type # t \/ o.tn # tn -> "dump: type of tag " \o ToString(e.tag)
       [] o.count # e.count -> "dump: count of tag " \o ToString(e.tag)
       [] o.name # NameIn(table, e.tag) -> "dump: name of tag " \o ToString(e.tag)
       [] ~IsFloat(e) /\ ~(e.type = TAscii /\ ~Printable(AsciiOf(e)))
            /\ o.val # DumpValue(e, d.le) -> "dump: value of tag " \o ToString(e.tag) \o " " \o o.val
       [] OTHER -> ""
DumpDirVerdict(d, depth, id, table, o) ==
  CASE o.x # "ifd" -> "dump: not a directory where " \o id \o " is expected"
    [] o.ty # d.kind \/ o.id # id \/ o.d # depth \/ o.n # Len(d.es) \/ o.next # d.next -> "dump: header of directory " \o id
    [] Len(o.es) # Len(d.es) -> "dump: number of entries of " \o id
    [] OTHER -> FirstBad([i \in 1..Len(d.es) |-> DumpEntryVerdict(d, d.es[i], table, o.es[i])])

(* what belongs to a directory, in the order of a dump: its Exif, GPS and sub *)
(* directories (maker notes are specified elsewhere)                          *)
ExifOf(w, d) == LET p == LongValue(d, 34665) IN IF p.some THEN DirAt(w, d.le, p.v, 0, "Exif") ELSE NoDir
GpsOf(w, d) == LET p == LongValue(d, 34853) IN IF p.some THEN DirAt(w, d.le, p.v, 0, "GpsInfo") ELSE NoDir
(* LONG values, also those of an untyped entry *)
LongArray(d, tag) ==
  IF ~HasTag(d, tag) THEN <<>>
  ELSE LET e == Entry(d, tag) IN
    CASE e.type = TLong -> U32s(e, d.le)
      [] e.type = TUndef -> LET m == Win(IF e.off = -1 THEN e.raw ELSE e.data, 0) IN
                            [i \in 1..(e.count \div 4) |-> U32(m, d.le, 4 * (i - 1))]
      [] OTHER -> <<>>
SubIfdsOf(w, d) ==
  LET offs == SelectSeq(LongArray(d, 330), LAMBDA o : o # 0)
  IN SelectSeq([i \in 1..Len(offs) |-> DirAt(w, d.le, offs[i], 0, "SubIfd")], LAMBDA x : x.ok)
DumpedDirs(w, d, id, table) ==
  LET x == ExifOf(w, d)  g == GpsOf(w, d)  s == SubIfdsOf(w, d)
      one(dd, dep, i, t) == [dir |-> dd, depth |-> dep, id |-> i, table |-> t]
  IN <<one(d, 2, id, table)>>
     \o (IF x.ok THEN <<one(x, 3, "Exif", "EXIF")>> ELSE <<>>)
     \o (IF g.ok THEN <<one(g, 3, "GPSInfo", "GPSINFO")>> ELSE <<>>)
     \o [i \in 1..Len(s) |-> one(s[i], 3, "", "EXIF")]
=============================================================================
