-------------------------------- MODULE Cr3 --------------------------------
(* Canon CR3 files: boxes of the ISO base media file format.  What is said   *)
(* here is said of well formed structures (Cr3Of(c).ok).                     *)
EXTENDS SensorTiff, MetaQ

nMoov == <<109,111,111,118>>  nUuid == <<117,117,105,100>>  nTrak == <<116,114,97,107>>  nFtyp == <<102,116,121,112>>
nTkhd == <<116,107,104,100>>  nMdia == <<109,100,105,97>>   nHdlr == <<104,100,108,114>>  nMinf == <<109,105,110,102>>
nStbl == <<115,116,98,108>>   nStsd == <<115,116,115,100>>  nStsz == <<115,116,115,122>>  nStco == <<115,116,99,111>>
nCo64 == <<99,111,54,52>>     nCraw == <<67,82,65,87>>      nJpeg == <<74,80,69,71>>      nThmb == <<84,72,77,66>>
nCtbo == <<67,84,66,79>>      nMvhd == <<109,118,104,100>>  nMdhd == <<109,100,104,100>>
nCmt == [i \in 1..4 |-> <<67,77,84,48 + i>>]
tVide == <<118,105,100,101>>  tSoun == <<115,111,117,110>>  tMeta == <<109,101,116,97>>
sCrx == <<99,114,120,32>>
uCraw == <<133,192,182,135,130,15,17,224,129,17,244,206,70,43,106,72>>

(* The boxes from p to e of w, at most n of them: [ok, bs].  A box is its    *)
(* name, its uuid and the extent of its content.  One of size zero is the    *)
(* last of the file.                                                         *)
RECURSIVE BoxesN(_, _, _, _, _)
BoxesN(w, p, e, top, n) ==
  IF e - p < 8 \/ n = 0 THEN [ok |-> TRUE, bs |-> <<>>]
  ELSE LET s == U32(w, FALSE, p)
           wide == s = 1
           name == Sub(w, p + 4, 4)
       IN IF wide /\ e - p < 16 THEN [ok |-> TRUE, bs |-> <<>>]
          ELSE IF s = 0 THEN [ok |-> top, bs |-> <<>>]
          ELSE LET big == wide /\ (U32(w, FALSE, p + 8) # 0 \/ U32(w, FALSE, p + 12) < 0)
                   size == IF wide THEN U32(w, FALSE, p + 12) ELSE s
                   hdr == IF wide THEN 16 ELSE 8
                   far == big \/ size < 0 \/ size > e - p
                   last == IF far THEN e ELSE p + size
                   uu == name = nUuid /\ last - p >= hdr + 16
                   r == TLCEval(BoxesN(w, last, e, top, n - 1))
                   cut == far
               IN IF (~far /\ size < hdr) \/ cut THEN [ok |-> FALSE, bs |-> <<>>]
                  ELSE [ok |-> r.ok, bs |-> <<[n |-> name, u |-> IF uu THEN Sub(w, p + hdr, 16) ELSE <<>>,
                                               a |-> IF uu THEN p + hdr + 16 ELSE p + hdr, e |-> last]>> \o r.bs]
Kids(w, b) == BoxesN(w, b.a, b.e, FALSE, 1000)
Named(bs, name) == SelectSeq(bs, LAMBDA b : b.n = name)
BLen(b) == b.e - b.a
(* the children of all the boxes of that name *)
Within1(w, r, name) ==
  LET ks == TLCEval([i \in 1..Len(Named(r.bs, name)) |-> Kids(w, Named(r.bs, name)[i])])
  IN [ok |-> r.ok /\ \A i \in 1..Len(ks) : ks[i].ok, bs |-> Concat([i \in 1..Len(ks) |-> ks[i].bs])]
LastOf(bs) == bs[Len(bs)]

(* 64 bits; -1 stands for 2^31 and above *)
U64(w, p) == IF U32(w, FALSE, p) # 0 \/ U32(w, FALSE, p + 4) < 0 THEN -1 ELSE U32(w, FALSE, p + 4)
L32(w, p) == IF U32(w, FALSE, p) < 0 THEN -1 ELSE U32(w, FALSE, p)

(* a header that comes in two versions, of exactly these sizes *)
FullSize(w, b, s0, s1) == BLen(b) >= 4 /\ LET v == B(w, b.a) IN (v = 0 /\ BLen(b) = s0) \/ (v = 1 /\ BLen(b) = s1)
TableOk(w, b, at, size) == BLen(b) >= at + 4 /\ LET n == U32(w, FALSE, b.a + at) IN n >= 0 /\ n <= (BLen(b) - at - 4) \div size

(* ---- a track: [ok, kind, id (it has one), entry, off, len] ---- *)
NoSample == [craw |-> FALSE, w |-> 0, h |-> 0, jpeg |-> FALSE, ok |-> TRUE]
SampleEntry(w, b, video) ==
  IF ~video THEN NoSample
  ELSE IF BLen(b) < (IF b.n = nCraw THEN 82 ELSE 78) THEN [NoSample EXCEPT !.ok = FALSE]
  ELSE LET ks == IF b.n = nCraw THEN BoxesN(w, b.a + 82, b.e, FALSE, 1000) ELSE [ok |-> TRUE, bs |-> <<>>] IN
       [craw |-> b.n = nCraw, w |-> U16(w, FALSE, b.a + 24), h |-> U16(w, FALSE, b.a + 26),
        jpeg |-> Named(ks.bs, nJpeg) # <<>>, ok |-> b.n # nCraw \/ ks.ok]
Track(w, b) ==
  LET ks == Kids(w, b)
      md == TLCEval(Within1(w, ks, nMdia))  mi == TLCEval(Within1(w, md, nMinf))  st == TLCEval(Within1(w, mi, nStbl))
      tk == Named(ks.bs, nTkhd)  hd == Named(md.bs, nHdlr)  mh == Named(md.bs, nMdhd)
      sd == Named(st.bs, nStsd)  sz == Named(st.bs, nStsz)
      co == SelectSeq(st.bs, LAMBDA x : x.n \in {nStco, nCo64})
      first(name) == SelectInSeq(md.bs, LAMBDA x : x.n = name)
      kind == IF hd = <<>> THEN <<>> ELSE Sub(w, hd[1].a + 8, 4)
      d == sd[1]
      count == U32(w, FALSE, d.a + 4)
      es == TLCEval(BoxesN(w, d.a + 8, d.e, FALSE, IF count < 1 THEN 1000 ELSE count))
      e == IF sd = <<>> \/ es.bs = <<>> THEN NoSample ELSE SampleEntry(w, es.bs[1], kind = tVide)
      z == sz[1]
      zc == U32(w, FALSE, z.a + 4) # 0
  IN [ok |-> /\ ks.ok /\ md.ok /\ mi.ok /\ st.ok
             /\ \A i \in 1..Len(tk) : FullSize(w, tk[i], 84, 96)
             /\ \A i \in 1..Len(mh) : FullSize(w, mh[i], 24, 36)
             \* one of each, and what the content is comes before the content
             /\ Len(hd) <= 1 /\ Len(sd) <= 1 /\ Len(sz) <= 1 /\ Len(co) <= 1
             /\ (hd # <<>> => BLen(hd[1]) >= 24 /\ Sub(w, hd[1].a, 4) = <<0, 0, 0, 0>>)
             /\ (hd # <<>> /\ mi.bs # <<>> => first(nHdlr) < first(nMinf))
             /\ (sd # <<>> => kind # tSoun /\ BLen(d) >= 8 /\ es.ok /\ e.ok /\ \A i \in 1..Len(es.bs) : SampleEntry(w, es.bs[i], kind = tVide).ok)
             /\ (sz # <<>> => BLen(z) >= 12 /\ (zc \/ TableOk(w, z, 8, 4)))
             /\ \A i \in 1..Len(co) : TableOk(w, co[i], 4, IF co[i].n = nStco THEN 4 ELSE 8),
      video |-> kind = tVide, id |-> tk # <<>>, entry |-> e, has |-> sd # <<>> /\ es.bs # <<>>,
      \* where the (first) sample is; absent: what is there is not said
      sized |-> sz # <<>>, placed |-> co # <<>>,
      len |-> IF sz = <<>> THEN 0 ELSE IF zc THEN L32(w, z.a + 4)
              ELSE IF U32(w, FALSE, z.a + 8) = 0 THEN -2 ELSE L32(w, z.a + 12),
      off |-> IF co = <<>> THEN 0 ELSE IF U32(w, FALSE, co[1].a + 4) = 0 THEN -2
              ELSE IF co[1].n = nStco THEN L32(w, co[1].a + 8) ELSE U64(w, co[1].a + 8)]
(* it is a sample of Canon's: neither its size nor its place is an empty list *)
IsCraw(t) == t.video /\ t.has /\ t.entry.craw /\ t.len # -2 /\ t.off # -2

(* ---- the header of Canon's: blocks of metadata, thumbnail, table ---- *)
Header(w, b) ==
  LET ks == Kids(w, b)
      blk(i) == LET s == Named(ks.bs, nCmt[i]) IN IF s = <<>> THEN <<>> ELSE Sub(w, LastOf(s).a, BLen(LastOf(s)))
      th == Named(ks.bs, nThmb)  ct == Named(ks.bs, nCtbo)
      t == th[1]  c == ct[1]
      n == IF ct = <<>> THEN 0 ELSE U32(w, FALSE, c.a)
      zero(i) == LET p == c.a + 4 + 20 * (i - 1) + 4 IN Sub(w, p, 8) = [j \in 1..8 |-> 0] \/ Sub(w, p + 8, 8) = [j \in 1..8 |-> 0]
  IN [ok |-> /\ ks.ok /\ Len(th) <= 1 /\ Len(ct) <= 1
             /\ (th # <<>> => BLen(t) >= 16 /\ U32(w, FALSE, t.a + 8) >= 0 /\ U32(w, FALSE, t.a + 8) <= BLen(t) - 16)
             /\ (ct # <<>> => BLen(c) >= 4 /\ n >= 0 /\ n <= (BLen(c) - 4) \div 20),
      blocks |-> TLCEval([i \in 1..4 |-> blk(i)]),
      thumb |-> IF th = <<>> THEN [w |-> 0, h |-> 0, b |-> <<>>]
                ELSE [w |-> U16(w, FALSE, t.a + 4), h |-> U16(w, FALSE, t.a + 6), b |-> Sub(w, t.a + 16, U32(w, FALSE, t.a + 8))],
      \* the second of the table is the preview
      prvw |-> IF n < 2 THEN -2 ELSE IF zero(1) \/ zero(2) THEN -2 ELSE U64(w, c.a + 4 + 24)]
NoHeader == [ok |-> TRUE, blocks |-> [i \in 1..4 |-> <<>>], thumb |-> [w |-> 0, h |-> 0, b |-> <<>>], prvw |-> -2]

Cr3Of(c) ==
  LET w == Win(c.file, 0)
      top == TLCEval(BoxesN(w, 0, WLen(w), TRUE, 1000))
      ft == Named(top.bs, nFtyp)
      kids == TLCEval(Within1(w, top, nMoov))
      traks == Named(kids.bs, nTrak)
      heads == SelectSeq(kids.bs, LAMBDA b : b.n = nUuid /\ b.u = uCraw)
      mv == Named(kids.bs, nMvhd)
      ts == TLCEval([i \in 1..Len(traks) |-> Track(w, traks[i])])
      hs == TLCEval([i \in 1..Len(heads) |-> Header(w, heads[i])])
  IN [ok |-> /\ top.ok /\ kids.ok /\ Len(ft) = 1 /\ BLen(ft[1]) >= 8 /\ BLen(ft[1]) % 4 = 0 /\ top.bs[1].n = nFtyp
             /\ Named(top.bs, nMoov) # <<>>
             /\ \A i \in 1..Len(mv) : FullSize(w, mv[i], 100, 112) /\ Sub(w, mv[i].a + IF B(w, mv[i].a) = 0 THEN 12 ELSE 20, 4) # <<0, 0, 0, 0>>
             /\ \A i \in 1..Len(ts) : ts[i].ok
             /\ \A i \in 1..Len(hs) : hs[i].ok,
      tracks |-> ts, head |-> IF hs = <<>> THEN NoHeader ELSE LastOf(hs)]

(* ---- the metadata: each block is a TIFF structure of its own ---- *)
BlockWin(f, i) == Win(f.head.blocks[i], 0)
Cr3Dir(f, i) ==
  LET w == BlockWin(f, i)  d == Dir0(w)
  IN IF ~d.ok THEN NoDir ELSE [d EXCEPT !.kind = <<"Main", "Exif", "MakerNote", "Other">>[i]]
Cr3Note(f) == Cr3Dir(f, 3)
Cr3Camera(f) ==
  LET id == LongValue(Cr3Note(f), 16) IN IF Cr3Note(f).ok /\ id.some THEN ById("CANON", id.v, <<1, 0>>) ELSE <<1, 0>>

(* ---- previews ---- *)
Cr3Previews(c, f) ==
  LET w == Win(c.file, 0)
      th == f.head.thumb
      jp(t) == t.video /\ t.id /\ IsCraw(t) /\ t.entry.jpeg
      js == SelectSeq(f.tracks, jp)
      p == f.head.prvw
      has == p >= 0 /\ p <= WLen(w) /\ Has(w, p + 46, 10)
      x == U16(w, FALSE, p + 46)  y == U16(w, FALSE, p + 48)
      l == L32(w, p + 52)
  IN (IF Max2(th.w, th.h) > 0 THEN <<[At(th.w, th.h, "JPEG", -2, Len(th.b)) EXCEPT !.bytes = th.b]>> ELSE <<>>)
     \o [i \in 1..Len(js) |-> At(js[i].entry.w, js[i].entry.h, "JPEG", js[i].off, js[i].len)]
     \o (IF has THEN IF x > 0 /\ y > 0 /\ l # 0 THEN <<At(x, y, "JPEG", p + 56, l)>> ELSE <<>> ELSE <<>>)

(* ---- the raw image is that of the third track ---- *)
Cr3Raw(c, f) ==
  LET w == Win(c.file, 0)  t == f.tracks[3] IN
  IF Len(f.tracks) < 3 THEN Failed
  ELSE IF ~t.video \/ ~t.id \/ ~IsCraw(t) \/ t.entry.jpeg THEN Failed
  ELSE [ok |-> TRUE, w |-> t.entry.w, h |-> t.entry.h, comp |-> 0, tsz |-> <<>>, photom |-> 32803,
        cfa |-> [some |-> TRUE, name |-> "NONE", v |-> <<>>], lin |-> <<>>,
        type |-> "COMP_RAW", dk |-> "8", bpc |-> 8, data |-> Cut(w, t.off, t.len)]
Cr3Sensor(f) ==
  LET s == CanonSensor(Cr3Note(f), <<1, 0>>, 8)
  IN [s EXCEPT !.blacks = Quad(0), !.whites = Quad(0), !.wb = <<>>]
Cr3Unsaid(f) == Len(f.tracks) >= 3 /\ (~f.tracks[3].sized \/ ~f.tracks[3].placed)
=============================================================================
