------------------------------ MODULE LjpegRaw ------------------------------
(* Raw images that are lossless JPEG streams: DNG and CR2.                   *)
EXTENDS Cr2, Ljpeg

(* is o the image j *)
ImageIs(j, o) ==
  IF ~j.ok
  THEN IF o.st = "err" \/ (o.st = "ok" /\ Len(o.data) = o.w * o.h) THEN "" ELSE "not a complete image"
  ELSE IF o.st # "ok" THEN "no image: " \o o.st
  ELSE IF o.w # j.w \/ o.h # j.h THEN "size " \o ToString(o.w) \o "x" \o ToString(o.h) \o " instead of " \o ToString(j.w) \o "x" \o ToString(j.h)
  ELSE IF o.bpc # j.prec THEN "bit depth " \o ToString(o.bpc) \o " instead of " \o ToString(j.prec)
  ELSE IF Len(o.data) # Len(j.v) THEN "length of the data"
  ELSE IF o.data # j.v THEN LET i == CHOOSE i \in 1..Len(j.v) : o.data[i] # j.v[i] /\ \A m \in 1..(i - 1) : o.data[m] = j.v[m]
                            IN "sample " \o ToString(i - 1) \o " is " \o ToString(o.data[i]) \o " instead of " \o ToString(j.v[i])
  ELSE ""
TileImage(r) ==
  LET js == [i \in 1..Len(r.data) |-> Ljpeg(r.data[i])]
      need == ((r.w + r.tsz[1] - 1) \div r.tsz[1]) * ((r.h + r.tsz[2] - 1) \div r.tsz[2])
      fine == /\ r.tsz[1] > 0 /\ r.tsz[2] > 0 /\ Len(js) >= need
              /\ \A i \in 1..need : js[i].ok /\ Len(js[i].v) = r.tsz[1] * r.tsz[2]
  IN IF r.tsz[1] <= 0 \/ r.tsz[2] <= 0 THEN [ok |-> FALSE, known |-> FALSE]
     ELSE [ok |-> fine, known |-> TRUE, w |-> r.w, h |-> r.h, prec |-> r.bpc,
           (* the tiles that are there *)
           has |-> [i \in 1..need |-> i <= Len(js) /\ IF i <= Len(js) THEN js[i].ok /\ Len(js[i].v) = r.tsz[1] * r.tsz[2] ELSE FALSE],
           v |-> Tiled([i \in 1..Len(js) |-> IF js[i].ok THEN js[i].v ELSE <<>>], r.tsz[1], r.tsz[2], r.w, r.h)]
(* with tiles missing, an image is one where the others are in their place *)
TileVerdict(r, o) ==
  LET j == TileImage(r) IN
  IF j.ok THEN ImageIs(j, o)
  ELSE IF ~j.known \/ o.st = "err" THEN ImageIs([ok |-> FALSE], o)
  ELSE IF o.st # "ok" THEN o.st
  ELSE IF o.w # r.w \/ o.h # r.h \/ Len(o.data) # r.w * r.h THEN "not a complete image"
  ELSE LET across == (r.w + r.tsz[1] - 1) \div r.tsz[1]
           tile(i) == (((i - 1) \div r.w) \div r.tsz[2]) * across + ((i - 1) % r.w) \div r.tsz[1] + 1
       IN IF \E i \in 1..(r.w * r.h) : j.has[tile(i)] /\ o.data[i] # j.v[i] THEN "a tile is not in its place" ELSE ""

LjpegVerdict(c, o) ==
  IF c.hint = "DNG"
  THEN LET r == RawOf(c) IN
       IF ~r.ok THEN IF o.st = "err" THEN "" ELSE "an image where the file has none"
       ELSE IF r.comp # 7 THEN ImageVerdict(r, o)
       ELSE IF r.dk = "tiled" THEN TileVerdict(r, o)
       ELSE ImageIs(Image(r.data, FALSE, <<>>), o)
  ELSE LET r == Cr2Stream(c) IN
       IF ~r.ok THEN IF o.st = "err" THEN "" ELSE "an image where the file has none"
       ELSE ImageIs(Image(r.data, TRUE, r.slices), o)
=============================================================================
