------------------------------- MODULE Nikon -------------------------------
(* Nikon quantized raw data.                                                 *)
EXTENDS RawTiff, Mnote, Ljpeg

(* the trees, as lengths and values *)
Lossy12 == [bits |-> <<0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0>>, vals |-> <<5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12, 0>>]
Lossy14 == [bits |-> <<0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0>>, vals |-> <<5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14>>]
Lossless14 == [bits |-> <<0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0>>, vals |-> <<7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14>>]
Tree(h0, bpc) == CASE h0 \in {68, 73} /\ bpc = 12 -> Lossy12
                   [] h0 \in {68, 73} /\ bpc = 14 -> Lossy14
                   [] h0 = 70 /\ bpc = 14 -> Lossless14
                   [] OTHER -> NoTable

(* What the table at p says.  curve is the function of 0 .. 16383 to values, *)
(* st "ok", "compressed" when the data stays as it is, or "bad".             *)
Curve(w, le, p, bpc) ==
  LET h0 == B(w, p)  h1 == B(w, p + 1)
      q == p + 2 + IF h0 = 73 THEN 2110 ELSE 0
      max == Pow2(bpc)
      n == IF Has(w, q + 8, 2) THEN U16(w, le, q + 8) ELSE 0
      at(i) == U16(w, le, q + 10 + 2 * i)
      step == IF n > 1 THEN max \div (n - 1) ELSE 0
      points == h0 = 68 /\ h1 = 32 /\ step > 0
      direct == ~points /\ h0 # 70 /\ n <= 16385
      (* between the points *)
      inter(i) == (at(i \div step) * (step - (i % step)) + (IF i % step = 0 THEN 0 ELSE at((i \div step) + 1) * (i % step))) \div step
      ok == [st |-> "ok", tree |-> Tree(h0, bpc), pred |-> [i \in 1..4 |-> U16(w, le, q + 2 * (i - 1))]]
  IN IF p < 0 \/ ~Has(w, p, 2) THEN [st |-> "bad"]
     ELSE IF ~Has(w, q, 8) THEN [st |-> "bad"]
     ELSE IF h0 = 70 /\ bpc = 12 THEN [st |-> "compressed"]
     ELSE IF Tree(h0, bpc) = NoTable THEN [st |-> "bad"]
     ELSE IF (points \/ direct) /\ ~Has(w, q + 10, 2 * n) THEN [st |-> "bad"]
     ELSE IF points THEN ok @@ [curve |-> [i \in 0..((n - 1) * step) |-> inter(i)], black |-> at(0)]
     ELSE IF direct THEN IF n = 0 THEN [st |-> "bad"] ELSE ok @@ [curve |-> [i \in 0..16383 |-> at(Min2(i, n - 1))], black |-> at(0)]
     ELSE ok @@ [curve |-> [i \in 0..(max - 1) |-> i], black |-> 0]

(* the running predictors: the first two columns from those of the rows of   *)
(* the same parity, the others from the column of the same parity            *)
Predicted(b, t, pred, cols, rows) ==
  LET k == Codes(t)
      step(st, i) ==
        LET y == i \div cols  x == i % cols
            d == Diff(b, st.p, t, k)
            up == st.up[(y % 2) + 1]
            v == ((IF x < 2 THEN up[x + 1] ELSE st.left[(x % 2) + 1]) + d.v) % 65536
        IN IF ~st.ok \/ ~d.ok THEN [st EXCEPT !.ok = FALSE]
           ELSE [ok |-> TRUE, p |-> d.p,
                 up |-> IF x < 2 THEN [st.up EXCEPT ![(y % 2) + 1][x + 1] = v] ELSE st.up,
                 left |-> [st.left EXCEPT ![(x % 2) + 1] = v], out |-> Append(st.out, v)]
  IN FoldLeft(step, [ok |-> TRUE, p |-> 0, up |-> <<<<pred[1], pred[2]>>, <<pred[3], pred[4]>>>>, left |-> <<0, 0>>, out |-> <<>>],
              [i \in 1..(cols * rows) |-> i - 1])

(* is o the image of r, whose table is cv *)
Decoded(r, cv, o) ==
  LET p == Predicted(r.data, cv.tree, cv.pred, r.w, r.h)
      wd == r.w - 1
      src(i) == p.out[(i \div wd) * r.w + (i % wd) + 1]
      wrong == {i \in 0..(wd * r.h - 1) : src(i) \in DOMAIN cv.curve /\ o.data[i + 1] # (cv.curve[src(i)] * Pow2(16 - r.bpc)) % 65536}
  IN IF ~p.ok THEN IF o.st = "err" THEN "" ELSE "an image of incomplete data"
     ELSE IF o.st # "ok" THEN "no image: " \o o.st
     ELSE IF o.w # wd \/ o.h # r.h THEN "size"
     ELSE IF o.bpc # r.bpc \/ o.dt # "RAW" \/ o.dk # "16" THEN "format"
     ELSE IF Len(o.data) # wd * r.h THEN "length of the data"
     ELSE IF wrong # {} THEN LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
                             IN "sample " \o ToString(i) \o " is " \o ToString(o.data[i + 1]) \o " instead of " \o ToString(cv.curve[src(i)] * Pow2(16 - r.bpc))
     ELSE IF o.cfa # r.cfa.name \/ o.photom # r.photom THEN "mosaic"
     ELSE ""
NefVerdict(c, skip, o) ==
  LET r == RawOf(c)
      w == Win(c.file, 0)  m == MainOf(w, c, "NEF")  exif == ExifOf(w, m)
      note == NoteOf(w, exif, "NEF")
      tab == Entry(note, 150)
      cv == Curve(w, note.le, tab.off + note.base, r.bpc)
  IN IF ~r.ok THEN ImageVerdict(r, o)
     ELSE IF r.comp # 34713 \/ skip THEN ImageVerdict(r, o)
     ELSE IF r.dk # "8" THEN IF o.st = "err" \/ o.dt = "COMP_RAW" THEN "" ELSE "tiles"
     ELSE IF ~HasTag(note, 150) THEN ImageVerdict(r, o)
     ELSE IF tab.off = -1 THEN ImageVerdict(r, o)
     ELSE IF cv.st = "compressed" THEN ImageVerdict(r, o)
     ELSE IF cv.st = "bad" THEN IF o.st = "err" THEN "" ELSE "an image without a table"
     ELSE Decoded(r, cv, o)
=============================================================================
