-------------------------------- MODULE Jpeg --------------------------------
(* JPEG streams as far as previews need: dimensions, and the Exif segment.   *)
EXTENDS Bytes

NoFrame == [ok |-> FALSE, w |-> 0, h |-> 0, exif |-> -1, elen |-> 0]
IsSof(m) == m \in {192, 193, 194}
(* the frame header at p, of n bytes: 8 bits, 1, 3 or 4 components that are   *)
(* different, with sampling factors of 1 to 4 and one of four tables         *)
FrameOk(w, p, n) ==
  /\ n >= 6
  /\ LET nc == B(w, p + 5)  id(i) == B(w, p + 6 + 3 * i)  s(i) == B(w, p + 7 + 3 * i) IN
     /\ B(w, p) = 8 /\ nc \in {1, 3, 4} /\ n = 6 + 3 * nc
     /\ U16(w, FALSE, p + 1) # 0 /\ U16(w, FALSE, p + 3) # 0
     /\ \A i \in 0..(nc - 1) :
          /\ s(i) \div 16 \in 1..4 /\ s(i) % 16 \in 1..4 /\ B(w, p + 8 + 3 * i) <= 3
          /\ \A j \in 0..(i - 1) : id(i) # id(j)
(* Walk the segments from p; x: where the Exif TIFF of the first Exif segment is *)
RECURSIVE Walk(_, _, _, _)
Walk(w, p, x, xl) ==
  IF ~Has(w, p, 4) \/ B(w, p) # 255 \/ B(w, p + 1) = 217 THEN NoFrame
  ELSE LET m == B(w, p + 1)
           len == U16(w, FALSE, p + 2)
       IN IF ~Has(w, p + 2, len) \/ len < 2 THEN NoFrame
          ELSE IF IsSof(m)
               THEN IF ~FrameOk(w, p + 4, len - 2) THEN NoFrame
                    ELSE [ok |-> TRUE, w |-> U16(w, FALSE, p + 7), h |-> U16(w, FALSE, p + 5), exif |-> x, elen |-> xl]
          ELSE LET e == m = 225 /\ x = -1 /\ len >= 8 /\ Sub(w, p + 4, 6) = <<69, 120, 105, 102, 0, 0>>
               IN Walk(w, p + 2 + len, IF e THEN p + 10 ELSE x, IF e THEN len - 8 ELSE xl)
(* the frame of the JPEG stream that starts at off *)
FrameAt(w, off) ==
  IF off < 0 \/ ~Has(w, off, 2) THEN NoFrame
  ELSE IF Sub(w, off, 2) # <<255, 216>> THEN NoFrame
  ELSE Walk(w, off + 2, -1, 0)
(* the Exif TIFF structure, a file of its own *)
ExifWin(w, f) == Win(Sub(w, f.exif, f.elen), 0)
=============================================================================
