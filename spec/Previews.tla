------------------------------ MODULE Previews ------------------------------
(* The previews a file holds, and which one answers a request.               *)
EXTENDS Mnote, MetaVal, Jpeg

(* a preview: dimensions, format, and where its bytes are (or the bytes)     *)
At(x, y, dt, off, len) == [w |-> x, h |-> y, dt |-> dt, off |-> off, len |-> len, bytes |-> <<>>]
DimOf(p) == IF ULe(p.h, p.w) THEN p.w ELSE p.h
OrElse(o, v) == IF o.some THEN o.v ELSE v
ShortValue(d, tag, dflt) ==
  IF HasTag(d, tag) /\ Entry(d, tag).count > 0 /\ Entry(d, tag).type = TShort THEN U16s(Entry(d, tag), d.le)[1] ELSE dflt
ShortArray(d, tag) ==
  IF HasTag(d, tag) /\ Entry(d, tag).type = TShort THEN U16s(Entry(d, tag), d.le) ELSE <<>>

(* x*y*3 <= n, without overflow (a negative n stands for one above 2^31) *)
FitsRgb(x, y, n) == n < 0 \/ (n \div 3 >= x /\ (n \div 3) \div x >= y)

(* the preview a directory describes, as a sequence of at most one *)
DirPreview(w, d) ==
  LET sub == OrElse(LongValue(d, 254), 1)
      photom == ShortValue(d, 262, 2)
      x == OrElse(UIntValue(d, 256), 0)
      y == OrElse(UIntValue(d, 257), 0)
      comp == ShortValue(d, 259, 0)
      strip == LongValue(d, 273)
      len == OrElse(IF strip.some THEN LongValue(d, 279) ELSE LongValue(d, 514), 0)
      off == IF strip.some THEN strip ELSE LongValue(d, 513)
      f == FrameAt(w, off.v)
      bits == ShortArray(d, 258)
  IN IF sub # 1 THEN <<>>
     ELSE IF ~strip.some \/ comp \in {6, 7}
     THEN IF ~off.some THEN <<>>
          ELSE IF x # 0 /\ y # 0
               THEN IF FitsRgb(x, y, len) THEN <<>>    \* that is pixels, whatever it says
                    ELSE <<At(x, y, "JPEG", off.v, len)>>
               ELSE \* a directory without dimensions: those of the JPEG stream
                    IF f.ok THEN <<At(f.w, f.h, "JPEG", off.v, len)>>
                    ELSE IF x # 0 \/ y # 0
                         THEN IF off.v < 0 \/ off.v > WLen(w) THEN <<At(x, y, "JPEG", off.v, len)>> ELSE <<>>
                         ELSE <<>>
     ELSE IF photom = 6 THEN <<>>
     ELSE IF x # 0 /\ y # 0 /\ \A i \in 1..Len(bits) : bits[i] = 8
          THEN <<At(x, y, "8RGB", strip.v, len)>>
     ELSE <<>>

sA100 == <<68, 83, 76, 82, 45, 65, 49, 48, 48>>
(* directories of a file that can describe a preview, in order *)
PreviewDirs(w, c, ty) ==
  LET ds == ChainFor(w, OrderFor(w, ty), c.kinds)
      a100 == ty = "ARW" /\ Len(ds) > 0 /\ LET m == AsciiValue(ds[1], 272) IN m.some /\ m.v = sA100
  IN Concat([i \in 1..Len(ds) |-> IF ds[i].kind = "Raw" THEN <<>>
                                  ELSE <<ds[i]>> \o (IF a100 THEN <<>> ELSE SubIfdsOf(w, ds[i]))])
TiffPreviews(w, c, ty) == LET ds == PreviewDirs(w, c, ty) IN Concat([i \in 1..Len(ds) |-> DirPreview(w, ds[i])])

(* a JPEG stream, if no preview of that size is there yet *)
JpegPreview(w, ps, off, len) ==
  LET f == FrameAt(w, off)
      p == At(f.w, f.h, "JPEG", off, len)
  IN IF ~f.ok THEN <<>>
     ELSE IF \E i \in 1..Len(ps) : DimOf(ps[i]) = DimOf(p) THEN <<>> ELSE <<p>>

(* the Exif directory of a file: that of the first directory *)
MainOf(w, c, ty) == LET ds == ChainFor(w, OrderFor(w, ty), c.kinds) IN IF Len(ds) = 0 THEN NoDir ELSE ds[1]
FileNote(w, c, ty) ==
  LET m == MainOf(w, c, ty) IN IF m.ok THEN NoteOf(w, ExifOf(w, m), ty) ELSE NoNote

(* offsets are added only if they stay in reach *)
Reach(o, base, w) == IF o.some /\ o.v >= 0 /\ o.v <= WLen(w) THEN o.v + base ELSE -1

(* previews that are in the maker note, given those found so far *)
NotePreviews(w, c, ty, ps) ==
  LET n == FileNote(w, c, ty)
      le == OrderFor(w, ty) = "le"
  IN IF ~n.ok THEN <<>>
     ELSE CASE ty = "NEF" ->
            LET d == IfdInEntry(w, n, 17, n.le) IN
            IF ~d.ok \/ ~LongValue(d, 513).some \/ ~LongValue(d, 514).some THEN <<>>
            ELSE JpegPreview(w, ps, Reach(LongValue(d, 513), n.base, w), LongValue(d, 514).v)
       [] ty = "ORF" ->
            LET t == BlobOffset(n, 256)
                p1 == IF t.some THEN JpegPreview(w, ps, Reach(t, n.base, w), Entry(n, 256).count) ELSE <<>>
                d == IfdInEntry(w, n, 8224, n.le)
                p2 == IF ~d.ok \/ OrElse(LongValue(d, 256), 0) = 0 THEN <<>>
                      ELSE LET s == Reach(Some(OrElse(LongValue(d, 257), 0)), n.base, w)
                               l == OrElse(LongValue(d, 258), 0)
                           IN IF s = 0 \/ l = 0 THEN <<>> ELSE JpegPreview(w, ps \o p1, s, l)
            IN p1 \o p2
       [] ty = "PEF" ->
            LET s == UIntValue(n, 4)  l == UIntValue(n, 3) IN
            IF s.some /\ l.some THEN JpegPreview(w, ps, Reach(s, n.base, w), l.v) ELSE <<>>
       [] ty = "DNG" /\ n.id = "Exif.Leica6" ->
            LET t == BlobOffset(n, 768) IN
            IF t.some THEN JpegPreview(w, ps, Reach(t, n.base, w), Entry(n, 768).count) ELSE <<>>
       [] ty = "ERF" /\ HasTag(n, 640) ->
            LET b == Entry(n, 640).data IN
            <<[At(640, 424, "JPEG", -2, Len(b)) EXCEPT !.bytes = IF b = <<>> THEN b ELSE <<255>> \o SubSeq(b, 2, Len(b))]>>
       [] OTHER -> <<>>

(* bytes of the file at off, cut at its end *)
Cut(w, off, len) == IF off < 0 \/ off > WLen(w) THEN <<>>
                    ELSE Sub(w, off, IF len < 0 THEN WLen(w) - off ELSE Min2(len, WLen(w) - off))
(* the thumbnail of the Exif data of a JPEG stream at off *)
ExifThumb(w, off) ==
  LET f == FrameAt(w, off)
      x == ExifWin(w, f)
      ds == Chain(x, <<"Main", "Other">>)
  IN IF ~f.ok \/ f.exif = -1 THEN <<>>
     ELSE IF Len(ds) < 2 THEN <<>>
     ELSE LET o == LongValue(ds[2], 513)  l == LongValue(ds[2], 514)
              b == IF o.some /\ l.some THEN Cut(x, o.v, l.v) ELSE <<>>
          IN IF b = <<>> \/ Len(b) # l.v THEN <<>> ELSE <<[At(160, 120, "JPEG", -2, Len(b)) EXCEPT !.bytes = b]>>
Rw2Previews(w, c) ==
  LET m == MainOf(w, c, "RW2")
      t == IF m.ok THEN BlobOffset(m, 46) ELSE None
      f == FrameAt(w, t.v)
  IN IF ~t.some THEN <<>>
     ELSE ExifThumb(w, t.v) \o (IF f.ok THEN <<At(f.w, f.h, "JPEG", t.v, Entry(m, 46).count)>> ELSE <<>>)

PreviewsOf(c) ==
  LET w == Win(c.file, 0)  ty == c.hint IN
  CASE ty = "RW2" -> Rw2Previews(w, c)
    [] ty = "JPEG" -> ExifThumb(w, 0)
    [] OTHER -> LET ps == TiffPreviews(w, c, ty) IN ps \o NotePreviews(w, c, ty, ps)

(* ---- requests ---- *)
ULt(a, b) == ULe(a, b) /\ a # b
Best(dims, size) ==
  LET bigger == {d \in dims : ULt(size, d)}
      least(s) == CHOOSE d \in s : \A e \in s : ULe(d, e)
      most(s) == CHOOSE d \in s : \A e \in s : ULe(e, d)
  IN IF size \in dims THEN size ELSE IF bigger # {} THEN least(bigger) ELSE most(dims)
(* the answer holds the bytes of preview p of file f *)
Answers(f, p, o) ==
  IF p.off = -2 THEN o.st = "ok" /\ o.w = p.w /\ o.h = p.h /\ o.dt = p.dt /\ o.data = p.bytes
  ELSE IF p.off < 0 \/ p.off > Len(f) THEN o.st = "err"
  ELSE /\ o.st = "ok" /\ o.w = p.w /\ o.h = p.h /\ o.dt = p.dt /\ o.bpc = 8
       /\ o.data = SubSeq(f, p.off + 1, p.off + (IF p.len < 0 THEN Len(f) - p.off ELSE Min2(p.len, Len(f) - p.off)))
       /\ o.size = Len(o.data)
ThumbVerdict(f, ps, size, o) ==
  LET dims == {DimOf(ps[i]) : i \in 1..Len(ps)}
      best == Best(dims, size)
      c == SelectSeq(ps, LAMBDA p : DimOf(p) = best)
  IN IF size = 0 \/ ps = <<>>
     THEN IF o.st = "err" THEN "" ELSE "a preview for size " \o ToString(size) \o " where there is none"
     ELSE IF \E i \in 1..Len(c) : Answers(f, c[i], o) THEN ""
     ELSE IF o.st = "err" THEN "no preview for size " \o ToString(size) \o " instead of that of " \o ToString(best)
     ELSE "preview for size " \o ToString(size) \o " is " \o ToString(o.w) \o "x" \o ToString(o.h) \o " " \o o.dt \o " of "
          \o ToString(o.size) \o " bytes; expected dimension " \o ToString(best)
SizesVerdict(ps, o) ==
  LET want == SortSeq([i \in 1..Len(ps) |-> DimOf(ps[i])], <)
  IN IF o.st # "ok" THEN IF ps = <<>> THEN "" ELSE "no list of sizes"
     ELSE IF SortSeq(o.sizes, <) = want THEN "" ELSE "sizes " \o ToString(o.sizes) \o " instead of " \o ToString(want)
=============================================================================
