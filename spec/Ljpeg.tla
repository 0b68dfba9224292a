------------------------------- MODULE Ljpeg -------------------------------
(* Lossless JPEG (ITU T.81 process 14), as a raw file holds it, and the      *)
(* layouts of the decoded samples: tiles and vertical slices.                *)
EXTENDS Bytes

mSOF == {192, 193, 195}
(* the segments from the SOI on.  A state is                                 *)
(*  [ok, at, prec, h, w, comps: <<id>>, tabs: table by number,               *)
(*   ri: restart interval, scan: <<table numbers>>, psv, pt, data: offset]   *)
Be(s, i) == 256 * s[i + 1] + s[i + 2]
NoTable == [bits |-> <<>>, vals |-> <<>>]
Bad == [ok |-> FALSE]
(* DHT contents from offset i to e *)
RECURSIVE Dht(_, _, _, _)
Dht(s, i, e, tabs) ==
  IF i >= e THEN [ok |-> i = e, tabs |-> tabs]
  ELSE IF i + 17 > Len(s) THEN [ok |-> FALSE, tabs |-> tabs]
  ELSE LET bits == SubSeq(s, i + 2, i + 17)
           n == FoldLeft(LAMBDA a, b : a + b, 0, bits)
       IN IF s[i + 1] > 3 \/ n > 256 \/ i + 17 + n > Len(s) THEN [ok |-> FALSE, tabs |-> tabs]
          ELSE Dht(s, i + 17 + n, e, [tabs EXCEPT ![s[i + 1] + 1] = [bits |-> bits, vals |-> SubSeq(s, i + 18, i + 17 + n)]])
(* st: "head" before the frame, "frame" after it.                            *)
RECURSIVE Segments(_, _)
Segments(s, st) ==
  LET i == st.at IN
  IF i + 4 > Len(s) \/ s[i + 1] # 255 THEN Bad
  ELSE IF s[i + 2] = 255 THEN Segments(s, [st EXCEPT !.at = i + 1])
  ELSE
    LET m == s[i + 2]
        len == Be(s, i + 2)
        e == i + 2 + len
    IN IF len < 2 \/ e > Len(s) THEN Bad
       ELSE CASE m = 196 -> LET d == Dht(s, i + 4, e, st.tabs)
                            IN IF d.ok THEN Segments(s, [st EXCEPT !.at = e, !.tabs = d.tabs]) ELSE Bad
              [] m = 221 -> IF len # 4 THEN Bad ELSE Segments(s, [st EXCEPT !.at = e, !.ri = Be(s, i + 4)])
              [] m \in mSOF /\ st.w = 0 ->
                   IF len < 8 THEN Bad ELSE
                   LET n == s[i + 10]
                       prec == s[i + 5]  h == Be(s, i + 5)  w == Be(s, i + 7)
                   IN IF len # 3 * n + 8 \/ n \notin 1..4 \/ prec \notin 2..16 \/ h = 0 \/ w = 0 THEN Bad
                      ELSE IF \E c \in 1..n : s[i + 10 + 3 * c - 1] # 17 THEN Bad
                      ELSE Segments(s, [st EXCEPT !.at = e, !.prec = prec, !.h = h, !.w = w,
                                        !.comps = [c \in 1..n |-> s[i + 10 + 3 * c - 2]]])
              [] m = 218 ->
                   LET n == s[i + 5] IN
                   IF st.w = 0 \/ n # Len(st.comps) \/ len # 2 * n + 6 THEN Bad
                   ELSE LET id(c) == s[i + 5 + 2 * c - 1]
                            tab(c) == s[i + 5 + 2 * c] \div 16
                            pt == s[i + 5 + 2 * n + 3] % 16
                        IN IF \E c \in 1..n : id(c) # st.comps[c] \/ tab(c) > 3 THEN Bad
                           ELSE IF \E c \in 1..n : st.tabs[tab(c) + 1] = NoTable THEN Bad
                           ELSE [st EXCEPT !.at = e, !.scan = [c \in 1..n |-> tab(c) + 1], !.psv = s[i + 5 + 2 * n + 1], !.pt = pt]
              [] m \in {224} \cup (225..239) \cup {254} -> Segments(s, [st EXCEPT !.at = e])
              [] OTHER -> Bad
Header(s) ==
  IF Len(s) < 4 \/ s[1] # 255 \/ s[2] # 216 THEN Bad
  ELSE Segments(s, [ok |-> TRUE, at |-> 2, prec |-> 0, h |-> 0, w |-> 0, comps |-> <<>>, tabs |-> [t \in 1..4 |-> NoTable],
                    ri |-> 0, scan |-> <<>>, psv |-> 0, pt |-> 0])

(* ---- entropy coded data ---- *)
(* the intervals: <<bytes without stuffing>>, split at the restart markers;  *)
(* [ok: ended by EOI, parts, marks: numbers of the markers]                  *)
Split(s, at) ==
  LET step(a, i) ==
        IF a.done THEN a
        ELSE IF a.ff
             THEN CASE s[i] = 0 -> [a EXCEPT !.ff = FALSE, !.cur = Append(@, 255)]
                    [] s[i] \in 208..215 -> [a EXCEPT !.ff = FALSE, !.parts = Append(@, a.cur), !.cur = <<>>, !.marks = Append(@, s[i] - 208)]
                    [] s[i] = 255 -> a
                    [] s[i] = 217 -> [a EXCEPT !.done = TRUE, !.ok = TRUE, !.parts = Append(@, a.cur)]
                    [] OTHER -> [a EXCEPT !.done = TRUE]
             ELSE IF s[i] = 255 THEN [a EXCEPT !.ff = TRUE] ELSE [a EXCEPT !.cur = Append(@, s[i])]
  IN FoldLeft(step, [ok |-> FALSE, done |-> FALSE, ff |-> FALSE, cur |-> <<>>, parts |-> <<>>, marks |-> <<>>],
              [i \in 1..(Len(s) - at) |-> at + i])

(* the codes of a table (T.81 annex C): [first: code of the first of each    *)
(* length, from: its index, bits] ; not ok when the lengths have no code     *)
Codes(t) ==
  LET step(a, l) == LET c == 2 * a.code IN
        [code |-> c + t.bits[l], first |-> Append(a.first, c), from |-> Append(a.from, a.next), next |-> a.next + t.bits[l],
         ok |-> a.ok /\ c + t.bits[l] <= Pow2(l)]
  IN FoldLeft(step, [code |-> 0, first |-> <<>>, from |-> <<>>, next |-> 1, ok |-> TRUE], [l \in 1..16 |-> l])
BitOf(b, p) == (b[p \div 8 + 1] \div Pow2(7 - (p % 8))) % 2
(* bits p to p + n - 1 *)
RECURSIVE BitsAt(_, _, _)
BitsAt(b, p, n) ==
  LET in == 8 - (p % 8)  v == b[p \div 8 + 1] % Pow2(in) IN
  IF n <= in THEN v \div Pow2(in - n) ELSE v * Pow2(n - in) + BitsAt(b, p + in, n - in)
(* the symbol at bit p: [ok, p, v] *)
RECURSIVE Sym(_, _, _, _, _, _)
Sym(b, p, t, k, l, code) ==
  IF l > 16 \/ p >= 8 * Len(b) THEN [ok |-> FALSE, p |-> p, v |-> 0]
  ELSE LET c == 2 * code + BitOf(b, p)  i == c - k.first[l] IN
       IF i < t.bits[l] THEN [ok |-> TRUE, p |-> p + 1, v |-> t.vals[k.from[l] + i]]
       ELSE Sym(b, p + 1, t, k, l + 1, c)
(* the difference at bit p *)
Diff(b, p, t, k) ==
  LET s == Sym(b, p, t, k, 1, 0) IN
  IF ~s.ok \/ s.v > 16 THEN [s EXCEPT !.ok = FALSE]
  ELSE IF s.v = 0 THEN s
  ELSE IF s.v = 16 THEN [s EXCEPT !.v = 32768]
  ELSE IF s.p + s.v > 8 * Len(b) THEN [s EXCEPT !.ok = FALSE]
  ELSE LET x == BitsAt(b, s.p, s.v)
       IN [ok |-> TRUE, p |-> s.p + s.v, v |-> IF x < Pow2(s.v - 1) THEN x + 1 - Pow2(s.v) ELSE x]
Pred(psv, ra, rb, rc) ==
  CASE psv = 1 -> ra [] psv = 2 -> rb [] psv = 3 -> rc
    [] psv = 4 -> ra + rb - rc
    [] psv = 5 -> ra + (rb - rc) \div 2
    [] psv = 6 -> rb + (ra - rc) \div 2
    [] psv = 7 -> (ra + rb) \div 2
(* one row of an interval.  up: the row above it in the interval, <<>> for the first *)
Row(hd, ks, b, p, up) ==
  LET n == Len(hd.scan)
      step(st, i) ==
        LET c == 1 + (i % n)
            d == Diff(b, st.p, hd.tabs[hd.scan[c]], ks[hd.scan[c]])
            pr == IF i < n THEN IF up = <<>> THEN Pow2(hd.prec - hd.pt - 1) ELSE up[i + 1]
                  ELSE IF up = <<>> THEN st.out[i + 1 - n]
                  ELSE Pred(hd.psv, st.out[i + 1 - n], up[i + 1], up[i + 1 - n])
        IN IF ~st.ok \/ ~d.ok THEN [st EXCEPT !.ok = FALSE]
           ELSE [ok |-> TRUE, p |-> d.p, out |-> Append(st.out, (pr + d.v) % 65536)]
  IN FoldLeft(step, [ok |-> TRUE, p |-> p, out |-> <<>>], [i \in 1..(hd.w * n) |-> i - 1])
(* the samples, in the order of the stream: [ok, v] *)
Scan(s, hd) ==
  LET sp == Split(s, hd.at)
      rows == IF hd.ri = 0 THEN hd.h ELSE hd.ri \div hd.w
      parts == (hd.h + rows - 1) \div rows
      ks == [t \in 1..4 |-> IF hd.tabs[t] = NoTable THEN [ok |-> TRUE] ELSE Codes(hd.tabs[t])]
      step(st, y) ==
        IF ~st.ok THEN st
        ELSE LET first == y % rows = 0
                 r == Row(hd, ks, sp.parts[y \div rows + 1], IF first THEN 0 ELSE st.p, IF first THEN <<>> ELSE st.up)
             IN [ok |-> r.ok, p |-> r.p, up |-> r.out, v |-> st.v \o r.out]
      all == FoldLeft(step, [ok |-> TRUE, p |-> 0, up |-> <<>>, v |-> <<>>], [y \in 1..hd.h |-> y - 1])
  IN IF \/ hd.ri # 0 /\ (hd.ri < hd.w \/ hd.ri % hd.w # 0)
        \/ hd.psv \notin 1..7 \/ hd.pt >= hd.prec
        \/ \E t \in 1..4 : ~ks[t].ok
     THEN [ok |-> FALSE, v |-> <<>>]
     ELSE IF Len(sp.parts) < parts \/ \E m \in 1..(parts - 1) : sp.marks[m] # (m - 1) % 8 THEN [ok |-> FALSE, v |-> <<>>]
     ELSE [ok |-> all.ok, v |-> [i \in 1..Len(all.v) |-> (all.v[i] * Pow2(hd.pt)) % 65536]]
(* the whole stream: [ok, w, h: of the frame, n: components, prec, v] *)
Ljpeg(s) ==
  LET hd == Header(s) IN
  IF ~hd.ok THEN [ok |-> FALSE]
  ELSE LET sc == Scan(s, hd) IN
       IF sc.ok THEN [ok |-> TRUE, w |-> hd.w, h |-> hd.h, n |-> Len(hd.comps), prec |-> hd.prec, v |-> sc.v] ELSE [ok |-> FALSE]

(* ---- the image the samples make ---- *)
(* The samples of a w wide image, when they fill vertical slices of the      *)
(* given widths one after the other, each of all the rows.                   *)
Sliced(v, w, h, slices) ==
  LET start(k) == FoldLeft(LAMBDA a, i : a + slices[i], 0, [i \in 1..(k - 1) |-> i])
      at(x) == CHOOSE k \in 1..Len(slices) : start(k) <= x /\ x < start(k) + slices[k]
      (* slice, first column and width of the slice of each column *)
      col == [x \in 1..w |-> LET k == at(x - 1) IN <<start(k), slices[k]>>]
  IN [i \in 1..(w * h) |->
        LET y == (i - 1) \div w  x == (i - 1) % w  c == col[x + 1]
        IN v[c[1] * h + y * c[2] + (x - c[1]) + 1]]
(* CR2: <<n, a, b>> is n slices a wide then one b wide *)
SliceWidths(q) == IF q[1] > 1000 \/ \E k \in 1..3 : q[k] < 0 \/ q[k] > 1000000 THEN <<>> ELSE [k \in 1..(q[1] + 1) |-> IF k <= q[1] THEN q[2] ELSE q[3]]
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
(* the image: [ok, w, h, prec, v] ; cfa: the components are columns and, when there are 4, rows *)
Image(s, cfa, slices) ==
  LET j == Ljpeg(s) IN
  IF ~j.ok THEN j
  ELSE LET widths == SelectSeq(IF slices = <<>> THEN <<>> ELSE SliceWidths(slices), LAMBDA a : a # 0)
           two == cfa /\ j.n = 4 /\ Sum(widths) # j.w * 4
           w == IF two THEN j.w * 2 ELSE j.w * j.n
           h == IF two THEN j.h * 2 ELSE j.h
       IN [ok |-> TRUE, w |-> w, h |-> h, prec |-> j.prec,
           v |-> IF widths # <<>> /\ Sum(widths) = w THEN Sliced(j.v, w, h, widths) ELSE j.v]

(* Tiles, tw by th, in rows from the top left, of a w by h image.  v[k] are  *)
(* the samples of tile k, <<>> when it is missing (its place is 0).          *)
Tiled(vs, tw, th, w, h) ==
  LET across == (w + tw - 1) \div tw IN
  [i \in 1..(w * h) |->
     LET y == (i - 1) \div w  x == (i - 1) % w
         k == (y \div th) * across + (x \div tw) + 1
         p == (y % th) * tw + (x % tw) + 1
     IN IF k > Len(vs) THEN 0 ELSE IF p > Len(vs[k]) THEN 0 ELSE vs[k][p]]
=============================================================================
