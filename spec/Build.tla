-------------------------------- MODULE Build --------------------------------
(* Constructors of file contents, for specifications that generate the files *)
(* the implementation is then run on.                                        *)
EXTENDS Bytes, FiniteSets

Code == [s \in {Char[c] : c \in 32..126} |-> CHOOSE c \in 32..126 : Char[c] = s]
(* the bytes of a printable ASCII string *)
Ascii(str) == [i \in 1..Len(str) |-> Code[SubSeq(str, i, i)]]
AsciiZ(str) == Append(Ascii(str), 0)

P16(v, le) == IF le THEN <<v % 256, v \div 256>> ELSE <<v \div 256, v % 256>>
P32(v, le) == LET a == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
              IN IF le THEN a ELSE Reverse(a)
Zeros(n) == [i \in 1..n |-> 0]
PadTo(s, n) == IF Len(s) >= n THEN s ELSE s \o Zeros(n - Len(s))

Unit(t) == CASE t \in {3, 8} -> 2 [] t \in {4, 9, 11} -> 4 [] t \in {5, 10, 12} -> 8 [] OTHER -> 1

(* entries: sequence of [tag, type, count, data]; data is the raw value bytes *)
(* A directory placed at offset off, its out of line data right behind it.    *)
DirBytes(es, off, next, le) ==
  LET size == 2 + 12 * Len(es) + 4
      ext(e) == Len(e.data) > 4
      pos(k) == off + size + FoldLeft(LAMBDA a, i : a + IF ext(es[i]) THEN Len(es[i].data) ELSE 0,
                                      0, [i \in 1..(k-1) |-> i])
      one(k) == LET e == es[k] IN
                P16(e.tag, le) \o P16(e.type, le) \o P32(e.count, le)
                \o IF ext(e) THEN P32(pos(k), le) ELSE PadTo(e.data, 4)
  IN P16(Len(es), le)
     \o Concat([k \in 1..Len(es) |-> one(k)])
     \o P32(next, le)
     \o Concat([k \in 1..Len(es) |-> IF ext(es[k]) THEN es[k].data ELSE <<>>])

TiffHead(ifd, le) == (IF le THEN <<73, 73, 42, 0>> ELSE <<77, 77, 0, 42>>) \o P32(ifd, le)
StrEntry(tag, s) == [tag |-> tag, type |-> 2, count |-> Len(s) + 1, data |-> AsciiZ(s)]
ByteEntry(tag, s) == [tag |-> tag, type |-> 1, count |-> Len(s), data |-> s]
=============================================================================
