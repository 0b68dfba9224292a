------------------------------- MODULE Pentax -------------------------------
(* Pentax compressed raw data.                                               *)
EXTENDS RawTiff, Mnote, Ljpeg

(* a table is a sequence of codes: category c has code codes[c + 1], as      *)
(* [v: its 12 bits, left aligned, l: length]                                 *)
(* the built in one, from lengths and categories (T.81) *)
Builtin == [bits |-> <<0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>, vals |-> <<3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12>>]
(* the codes the maker note has at byte 14 on, with the lengths after them *)
Stated(s, le) ==
  LET w == Win(s, 0)
      depth == (U16(w, le, 0) + 12) % 16
      len(c) == B(w, 14 + 2 * depth + c)
  IN IF Len(s) < 2 THEN [ok |-> FALSE]
     ELSE IF depth = 0 \/ Len(s) < 14 + 3 * depth THEN [ok |-> FALSE]
     ELSE [ok |-> \A c \in 0..(depth - 1) : len(c) \in 1..12,
           codes |-> [c \in 1..depth |-> [v |-> U16(w, le, 14 + 2 * (c - 1)), l |-> len(c - 1)]]]
(* no code is the start of another one, and they are in the order of lengths *)
Proper(cs) ==
  /\ \A c \in 1..Len(cs) : cs[c].v % Pow2(12 - cs[c].l) = 0 /\ cs[c].v < 4096
  /\ \A c, d \in 1..Len(cs) : c # d => cs[c].v + Pow2(12 - cs[c].l) <= cs[d].v \/ cs[d].v + Pow2(12 - cs[d].l) <= cs[c].v
(* and there is no other code before the last one *)
Canonical(cs) ==
  /\ Proper(cs)
  /\ \A c \in 1..Len(cs) : cs[c].v = FoldLeft(LAMBDA a, d : IF cs[d].v < cs[c].v THEN a + Pow2(12 - cs[d].l) ELSE a, 0, [d \in 1..Len(cs) |-> d])
  /\ \A c, d \in 1..Len(cs) : cs[c].v < cs[d].v => cs[c].l <= cs[d].l
(* the difference at bit p with the codes cs *)
PDiff(b, p, cs) ==
  LET n == 8 * Len(b) - p
      v == IF n >= 12 THEN BitsAt(b, p, 12) ELSE IF n <= 0 THEN 0 ELSE BitsAt(b, p, n) * Pow2(12 - n)
      hit == {c \in 1..Len(cs) : v \div Pow2(12 - cs[c].l) = cs[c].v \div Pow2(12 - cs[c].l)}
      c == CHOOSE c \in hit : TRUE
      q == p + cs[c].l  s == c - 1
      x == BitsAt(b, q, s)
  IN IF hit = {} THEN [ok |-> FALSE]
     ELSE IF q + s > 8 * Len(b) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, p |-> q + s, v |-> IF s = 0 THEN 0 ELSE IF x < Pow2(s - 1) THEN x + 1 - Pow2(s) ELSE x]
PentaxImage(b, dif(_), cols, rows) ==
  LET step(st, i) ==
        LET y == i \div cols  x == i % cols
            d == dif(st.p)
            up == st.up[(y % 2) + 1]
            v == ((IF x < 2 THEN up[x + 1] ELSE st.left[(x % 2) + 1]) + d.v) % 65536
        IN IF ~st.ok \/ ~d.ok THEN [st EXCEPT !.ok = FALSE]
           ELSE [ok |-> TRUE, p |-> d.p,
                 up |-> IF x < 2 THEN [st.up EXCEPT ![(y % 2) + 1][x + 1] = v] ELSE st.up,
                 left |-> [st.left EXCEPT ![(x % 2) + 1] = v], out |-> Append(st.out, v)]
  IN FoldLeft(step, [ok |-> TRUE, p |-> 0, up |-> <<<<0, 0>>, <<0, 0>>>>, left |-> <<0, 0>>, out |-> <<>>],
              [i \in 1..(cols * rows) |-> i - 1])

PefVerdict(c, skip, o) ==
  LET r == RawOf(c)
      w == Win(c.file, 0)  m == MainOf(w, c, "PEF")  exif == ExifOf(w, m)
      note == NoteOf(w, exif, "PEF")
      e == Entry(note, 544)
      own == HasTag(note, 544) /\ e.type \in {TByte, TUndef}
      t == Stated(SubSeq(e.data, 1, e.count), m.le)
      k == Codes(Builtin)
      im == IF own THEN PentaxImage(r.data, LAMBDA p : PDiff(r.data, p, t.codes), r.w, r.h)
            ELSE PentaxImage(r.data, LAMBDA p : Diff(r.data, p, Builtin, k), r.w, r.h)
      good == IF own THEN t.ok ELSE TRUE
      plain == o.dt = "COMP_RAW" /\ ImageVerdict(r, o) = ""
  IN IF ~r.ok \/ skip THEN ImageVerdict(r, o)
     ELSE IF r.dk # "8" \/ r.comp # 65535 THEN IF r.dk = "16" THEN ImageVerdict(r, o) ELSE ""
     ELSE IF o.st # "ok" THEN o.st
     ELSE IF ~good \/ r.w % 2 = 1 THEN IF plain THEN "" ELSE "an image without a table, or of an odd width"
     ELSE IF own /\ ~Canonical(t.codes) THEN ""
     ELSE IF ~im.ok THEN IF plain \/ Len(o.data) = r.w * r.h THEN "" ELSE "not a complete image"
     ELSE IF o.w # r.w \/ o.h # r.h \/ Len(o.data) # r.w * r.h THEN "size"
     ELSE IF o.dt # "RAW" \/ o.dk # "16" \/ o.bpc # r.bpc \/ o.comp # cNone THEN "format " \o o.dt
     ELSE IF o.data # im.out THEN LET i == CHOOSE i \in 1..Len(im.out) : o.data[i] # im.out[i] /\ \A j \in 1..(i - 1) : o.data[j] = im.out[j]
                                  IN "sample " \o ToString(i - 1) \o " is " \o ToString(o.data[i]) \o " instead of " \o ToString(im.out[i])
     ELSE IF o.cfa # r.cfa.name \/ o.photom # r.photom THEN "mosaic"
     ELSE ""
=============================================================================
