----------------------------- MODULE Panasonic -----------------------------
(* Panasonic RW2 files: the raw image and its description.                   *)
EXTENDS Sensor

(* ---- the compressed format ---- *)
BlockLen == 16384
ChunksPerBlock == 1024
(* the n bits (n <= 8) at bit p of the 16 byte chunk at a: the last byte     *)
(* comes first                                                               *)
Get(s, a, p, n) ==
  LET lo == 128 - p - n
      i == lo \div 8
      v == s[a[i + 1]] + (IF i < 15 THEN 256 * s[a[i + 2]] ELSE 0)
  IN (v \div Pow2(lo % 8)) % Pow2(n)
(* positions in s of the bytes of chunk k: blocks start at 0x1ff8 and wrap   *)
ChunkAt(k) == [i \in 1..16 |->
  1 + BlockLen * (k \div ChunksPerBlock) + ((8184 + 16 * (k % ChunksPerBlock) + i - 1) % BlockLen)]
(* 14 pixels of two alternating colours.  st: [p: bit, sh, pred, nonz, out]  *)
PixelStep(s, a, st, i) ==
  LET c == 1 + (i % 2)
      p0 == IF i % 3 = 2 THEN st.p + 2 ELSE st.p
      sh == IF i % 3 = 2 THEN <<0, 1, 2, 4>>[1 + Get(s, a, st.p, 2)] ELSE st.sh
      j == Get(s, a, p0, 8)
      old == st.pred[c]
      less == old - 128 * Pow2(sh)
      diff == (IF less < 0 \/ sh = 4 THEN old % Pow2(sh) ELSE less) + j * Pow2(sh)
      full == ~st.nonz[c] /\ (j # 0 \/ i > 11)
      v == IF st.nonz[c] THEN IF j = 0 THEN old ELSE diff
           ELSE IF full THEN 16 * j + Get(s, a, p0 + 8, 4) ELSE old
  IN [p |-> IF full THEN p0 + 12 ELSE p0 + 8, sh |-> sh,
      pred |-> [st.pred EXCEPT ![c] = v], nonz |-> [st.nonz EXCEPT ![c] = @ \/ j # 0],
      out |-> Append(st.out, v)]
Pixels14 == [i \in 1..14 |-> i - 1]
Chunk(s, k) == LET a == ChunkAt(k) IN
  FoldLeft(LAMBDA st, i : PixelStep(s, a, st, i),
           [p |-> 0, sh |-> 0, pred |-> <<0, 0>>, nonz |-> <<FALSE, FALSE>>, out |-> <<>>], Pixels14).out
Chunks(s) == [k \in 1..(Len(s) \div 16) |-> Chunk(s, k - 1)]
(* does o hold the pixels of the blocks s *)
Decodes(s, o) ==
  LET n == Len(s) \div 16 IN
  /\ Len(o) = 14 * n
  /\ \A k \in 0..(n - 1) : SubSeq(o, 14 * k + 1, 14 * k + 14) = Chunk(s, k)

(* ---- the image ---- *)
HasShort(d, tag) == HasTag(d, tag) /\ Entry(d, tag).count > 0 /\ Entry(d, tag).type = TShort
Rw2Pattern(d) ==
  LET p == ShortValue(d, 9, 0) IN
  CASE p = 1 -> Pattern(<<0, 1, 1, 2>>) [] p = 2 -> Pattern(<<1, 0, 2, 1>>)
         [] p = 3 -> Pattern(<<1, 2, 0, 1>>) [] p = 4 -> Pattern(<<2, 1, 1, 0>>) [] OTHER -> NoPattern
(* [ok, ..., coded]: with coded, data is the payload that is to be decoded   *)
Rw2Raw(c, skip) ==
  LET w == Win(c.file, 0)
      d == MainOf(w, c, "RW2")
      direct == UIntValue(d, 280)
      so == UIntValue(d, 273)  sc == UIntValue(d, 279)
      off == IF direct.some THEN direct.v ELSE so.v
      x == UIntValue(d, 2)  y == UIntValue(d, 3)
      pix == Pixels(x.v, y.v)
      real == WLen(w) - off
      bytes == Cut(w, off, IF direct.some THEN real ELSE sc.v)
      unpacked == ~direct.some /\ pix <= 1000000000 /\ real >= 2 * pix
      packed == ~direct.some /\ ~unpacked /\ pix <= 700000000 /\ real >= (3 * pix) \div 2
      comp == IF HasShort(d, 11) /\ ShortValue(d, 11, 0) \in KnownComp THEN ShortValue(d, 11, 0) ELSE 0
      decodable == comp = 34316 /\ Len(bytes) % BlockLen = 0 /\ 14 * (Len(bytes) \div 16) >= pix
      u == Unpack(bytes, Enc(12, FALSE, TRUE), x.v, y.v)
      words == Words(bytes, TRUE)
      base == [ok |-> TRUE, coded |-> FALSE, w |-> x.v, h |-> y.v, bpc |-> ShortValue(d, 10, 16), tsz |-> <<>>,
               photom |-> 32803, cfa |-> Rw2Pattern(d), lin |-> <<>>, comp |-> comp]
  IN IF ~d.ok \/ ~x.some \/ ~y.some \/ pix < 0 \/ (~direct.some /\ ~(so.some /\ sc.some)) THEN Failed
     ELSE IF off < 0 \/ off > WLen(w) THEN Failed
     ELSE IF unpacked
     THEN IF Len(words) < pix THEN Failed
          ELSE base @@ [type |-> "RAW", dk |-> "16", data |-> [i \in 1..Len(words) |-> words[i] \div 16]]
     ELSE IF packed THEN IF u.ok THEN base @@ [type |-> "RAW", dk |-> "16", data |-> u.v] ELSE Failed
     ELSE IF ~skip /\ decodable
     THEN [base EXCEPT !.coded = TRUE, !.comp = cNone] @@ [type |-> "RAW", dk |-> "16", data |-> bytes]
     ELSE base @@ [type |-> "COMP_RAW", dk |-> "8", data |-> bytes]
Rw2Verdict(r, o) ==
  IF ~r.ok \/ ~r.coded \/ o.st # "ok" THEN ImageVerdict(r, o)
  ELSE IF ~Decodes(r.data, o.data) THEN "decoded data differs" ELSE ImageVerdict([r EXCEPT !.data = o.data], o)

(* ---- the sensor ---- *)
Pos(a) == IF a < 0 THEN 0 ELSE a
Low16(o, dflt) == IF ~o.some THEN dflt ELSE o.v % 65536
Rw2Sensor(c, r) ==
  LET w == Win(c.file, 0)
      d == MainOf(w, c, "RW2")
      bd(t) == ShortValue(d, t, 0)
      lv(t, dflt) == Low16(UIntValue(d, t), dflt)
      top == MaxOf(ShortValue(d, 10, 16))
      g == UIntValue(d, 37)  rl == UIntValue(d, 36)  bl == UIntValue(d, 38)
      rb == UIntValue(d, 17)  bb == UIntValue(d, 18)
  IN [aa |-> <<0, 0, r.w, r.h>>,
      crop |-> <<bd(5), bd(4), Pos(bd(7) - bd(5)), Pos(bd(6) - bd(4))>>, ar |-> <<>>,
      whites |-> <<lv(14, top), lv(15, top), lv(16, top), lv(15, top)>>,
      blacks |-> <<lv(28, 0), lv(29, 0), lv(30, 0), lv(29, 0)>>,
      wb |-> IF g.some
             THEN <<{IF rl.some THEN <<g.v, rl.v>> ELSE <<1, 1>>}, {<<1, 1>>}, {IF bl.some THEN <<g.v, bl.v>> ELSE <<1, 1>>}, {}>>
             ELSE IF rb.some /\ bb.some THEN <<{<<256, rb.v>>}, {<<1, 1>>}, {<<256, bb.v>>}, {}>> ELSE <<>>]
=============================================================================
