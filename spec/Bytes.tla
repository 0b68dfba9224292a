------------------------------- MODULE Bytes -------------------------------
(* Byte level vocabulary shared by every specification.                     *)
(* A "window" w = [f |-> sequence of bytes, o |-> origin] is what a reader   *)
(* sees of a file: position i of the window is byte o+i of the file, and     *)
(* the window ends where the file ends.  (Property C25 is exactly that the   *)
(* implementation's nested views behave like windows.)                       *)
(* TLC integers have 32 bits: an unsigned 32 bit value is represented by its *)
(* two's complement signed value, as in the traces the harness logs.         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Win(f, o) == [f |-> f, o |-> o]
WLen(w) == Len(w.f) - w.o
B(w, i) == w.f[w.o + i + 1]
Has(w, i, n) == i >= 0 /\ n >= 0 /\ i <= WLen(w) /\ n <= WLen(w) - i

Sub(w, i, n) == SubSeq(w.f, w.o + i + 1, w.o + i + n)

U16(w, le, i) == IF le THEN B(w, i) + 256 * B(w, i + 1)
                 ELSE 256 * B(w, i) + B(w, i + 1)
S16(w, le, i) == LET v == U16(w, le, i) IN IF v > 32767 THEN v - 65536 ELSE v
S8v(v) == IF v > 127 THEN v - 256 ELSE v
S8(w, i) == S8v(B(w, i))
(* unsigned 32 as two's complement *)
Mk32(b3, b2, b1, b0) == S8v(b3) * 16777216 + b2 * 65536 + b1 * 256 + b0
U32(w, le, i) == IF le THEN Mk32(B(w, i+3), B(w, i+2), B(w, i+1), B(w, i))
                 ELSE Mk32(B(w, i), B(w, i+1), B(w, i+2), B(w, i+3))

(* u <= v for two's complement represented unsigned values *)
ULe(u, v) == IF (u < 0) = (v < 0) THEN u <= v ELSE u >= 0

AsciiAt(w, i, str) == Has(w, i, Len(str)) /\ Sub(w, i, Len(str)) = str

(* decimal text of an unsigned value *)
UDec(v) == IF v >= 0 THEN ToString(v)
           ELSE LET a == (v + 2147483647) + 1
                    r == (a % 10) + 8
                    d == (a \div 10) + 214748364 + (r \div 10)
                IN ToString(d) \o ToString(r % 10)

Char == [c \in 32..126 |->
  << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
     "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
     "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
     "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
     "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
     "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>[c - 31]]

(* bytes up to the first NUL *)
CStr(s) == LET p == SelectInSeq(s, LAMBDA c : c = 0)
           IN IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
(* printable ASCII bytes to a string *)
Text(s) == FoldLeft(LAMBDA a, c : a \o Char[c], "", s)

(* is t a contiguous part of s *)
Within(s, t) == \E k \in 0..(Len(s) - Len(t)) : SubSeq(s, k + 1, k + Len(t)) = t

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Pow2(n) == 2 ^ n
Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
=============================================================================
