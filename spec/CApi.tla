-------------------------------- MODULE CApi --------------------------------
(* The C API.  The state is the client's table of objects: for each slot the *)
(* kind of the object, what it describes (as the native API tells), and what *)
(* a client can see of its history (a conversion to text is made once, an    *)
(* iterator has a position).  Objects are released once; a directory belongs *)
(* to the raw file, a string to its value, an entry to the iterator until it *)
(* moves.  Values of the enumerations are those of the C headers.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null == [kind |-> "null"]
At(sl, s) == IF s \in DOMAIN sl THEN sl[s] ELSE Null
Drop(sl, s) == [x \in {y \in DOMAIN sl \ {s} : ~ (sl[y].kind = "ifd" /\ sl[y].owner = s)} |-> sl[x]]
Put(sl, s, r) == (s :> r) @@ sl

(* what the client may call, in a state; it is the client's side of the contract *)
Kinds == {"file", "thumb", "raw", "bitmap", "value", "iter", "ifd"}
Creates == [thumb |-> "thumb", raw |-> "raw", render |-> "bitmap", meta |-> "value", iter |-> "iter", ifd |-> "ifd"]
Takes == [tinfo |-> "thumb", rinfo |-> "raw", binfo |-> "bitmap", vinfo |-> "value", next |-> "iter", entry |-> "iter", dinfo |-> "ifd", file |-> "file", cm |-> "file"]
(* a pointer kept is good as long as its owner lives (for an entry: until the iterator moves) *)
Allowed(sl, op) ==
  LET f == op[1] IN
  CASE f \in {"new"} -> op[2] \notin DOMAIN sl
    [] f \in {"xthumb", "xraw"} -> op[3] \notin DOMAIN sl
    [] f \in DOMAIN Creates -> At(sl, op[2]).kind \in {"file", "null"} /\ op[3] \notin DOMAIN sl
    [] f \in DOMAIN Takes -> At(sl, op[2]).kind \in {Takes[f], "null"}
    [] f = "release" -> At(sl, op[2]).kind \in {op[3], "null"} /\ op[3] # "ifd"
    [] f = "reread" -> op[2] \in DOMAIN sl
    [] OTHER -> TRUE

---------------------------------------------------------------------------
ErrNone == 0
ErrTooSmall == 1
ErrNotARef == 2
ErrCantOpen == 3
ErrNotFound == 5
ErrInvalidParam == 6
TypeNum == [UNKNOWN |-> 0, CR2 |-> 1, CRW |-> 2, NEF |-> 3, MRW |-> 4, ARW |-> 5, DNG |-> 6, ORF |-> 7, PEF |-> 8, ERF |-> 9, TIF |-> 10,
            NRW |-> 11, RW2 |-> 12, RAF |-> 13, CR3 |-> 14, GPR |-> 15, SR2 |-> 16, RW |-> 17, JPEG |-> 100]
DataNum(d) == CASE d = "8RGB" -> 1 [] d = "16RGB" -> 2 [] d = "JPEG" -> 3 [] d = "RAW" -> 6 [] d = "COMP_RAW" -> 7 [] OTHER -> 100
CfaNum == [NONE |-> 0, NON_RGB22 |-> 1, RGGB |-> 2, GBRG |-> 3, BGGR |-> 4, GRBG |-> 5]
IfdNum == [Other |-> 0, Main |-> 1, Exif |-> 2, MakerNote |-> 3, Raw |-> 4, SubIfd |-> 5, GpsInfo |-> 6]
InvalidIfd == 10000
UnknownData == 100
Guard == 1515852340      \* the outputs before the call
Guard16 == 43981
GuardF == <<1079205888, 0>>
GuardS == 305419896

NullTable == [release |-> ErrNotARef, zero |-> 0, ptr |-> 0, error |-> ErrNotARef, unknown |-> UnknownData, minus |-> 0 - 1, invalid |-> InvalidIfd]

(* the error an error output has, for a native result *)
IsError(n, e) ==
  CASE n.st = "ok" -> e = ErrNone
    [] n.st = "null" -> e = ErrNotARef
    [] n.st = "noopen" -> e = ErrCantOpen
    [] n.st = "err" -> IF n.err = "NotFound" THEN e = ErrNotFound ELSE e \notin {ErrNone, ErrNotARef, Guard}
    [] OTHER -> FALSE
ErrorOut(n, e, with) ==
  IF e[1] # Guard \/ e[3] # Guard THEN "memory next to the error code was written"
  ELSE IF ~ with THEN (IF e[2] = Guard THEN "" ELSE "an error code was written")
  ELSE IF IsError(n, e[2]) THEN "" ELSE "the error code is " \o ToString(e[2]) \o " for " \o n.st
Created(o, n) == o.null = (n.st # "ok")

First(l) == IF l = {} THEN "" ELSE CHOOSE x \in l : TRUE
(* <<condition, message>> *)
Check(s) == LET bad == {i \in 1..Len(s) : ~ s[i][1]} IN IF bad = {} THEN "" ELSE s[CHOOSE i \in bad : \A j \in bad : i <= j][2]
Filled(n) == [i \in 1..n |-> Guard]
RectOf(o, r) == IF r = <<>> THEN o.e = ErrNotFound /\ o.v = Filled(6) /\ o.nulls = ErrNotFound
                ELSE o.e = ErrNone /\ o.v = <<Guard>> \o r \o <<Guard>> /\ o.nulls = ErrNone

FileVerdict(r, o) ==
  IF r.kind = "null" THEN Check(<< <<o.type = 0 /\ o.id = 0 /\ o.vid = 0 /\ o.orient = 0 /\ o.sizes.null /\ o.lights = <<0, 0>> /\ o.origin = 0, "a null raw file is described">> >>)
  ELSE LET n == r.n IN
       Check(<< <<o.type = TypeNum[n.t], "the type is " \o ToString(o.type) \o " for " \o n.t>>,
                <<IF n.ids.st = "ok" THEN o.id = n.ids.v * 65536 + n.ids.c /\ o.vid = n.ids.v ELSE o.id = 0 /\ o.vid = 0, "the type id or the vendor id is not the file's">>,
                <<o.orient = n.orient, "the orientation is " \o ToString(o.orient)>>,
                <<IF n.sizes.st = "ok" THEN ~ o.sizes.null /\ o.sizes.v = n.sizes.sizes /\ o.sizes.same ELSE o.sizes.null, "the thumbnail sizes are not the file's">>,
                <<o.sizes.guard = <<GuardS, GuardS>>, "memory next to the count of sizes was written">>,
                <<o.lights = n.lights, "the calibration illuminants are not the file's">>,
                <<o.origin = (IF n.cms[1].st = "ok" THEN n.cms[1].o ELSE 0), "the origin of the colour matrix is not the file's">> >>)

(* op: cm, slot, which, capacity, null buffer *)
MatrixVerdict(r, op, o) ==
  LET cap == op[4]  c == IF cap < 0 THEN 0 ELSE cap
      untouched == o.v = [i \in 1..(c + 2) |-> GuardF]
      guards == o.n[1] = Guard /\ o.n[3] = Guard IN
  IF ~ guards THEN "memory next to the size was written"
  ELSE IF r.kind = "null" THEN (IF o.e = ErrNotARef /\ untouched THEN "" ELSE "the matrix of a null raw file")
  ELSE IF cap < 0 THEN (IF o.e # ErrNone THEN "" ELSE "the matrix without a size")
  ELSE LET m == r.n.cms[op[3]] IN
       IF m.st # "ok" THEN (IF IsError(m, o.e) /\ untouched THEN "" ELSE "a matrix the file doesn't have: " \o ToString(o.e))
       ELSE IF cap < Len(m.v) THEN
              (IF o.e = ErrTooSmall /\ o.n[2] = Len(m.v) /\ untouched THEN "" ELSE "a matrix buffer too small: error " \o ToString(o.e) \o " size " \o ToString(o.n[2]))
       ELSE IF op[5] THEN (IF o.e # ErrNone /\ untouched THEN "" ELSE "a matrix without a buffer")
       ELSE Check(<< <<o.e = ErrNone, "the matrix fits, the error is " \o ToString(o.e)>>, <<o.n[2] = Len(m.v), "the size of the matrix is " \o ToString(o.n[2])>>,
                     <<\A i \in 1..(c + 2) : o.v[i] = (IF i > 1 /\ i <= Len(m.v) + 1 THEN m.v[i - 1] ELSE GuardF), "the matrix is not the file's">> >>)

ThumbVerdict(r, o) ==
  IF r.kind = "null" THEN Check(<< <<o.blob.null /\ o.blob.n = 0 /\ o.dims = Filled(4), "a null thumbnail is described">> >>)
  ELSE LET n == r.n IN
       Check(<< <<o.fmt = DataNum(n.dt), "the format of the thumbnail is " \o ToString(o.fmt) \o " for " \o n.dt>>,
                <<o.dims = <<Guard, n.w, n.h, Guard>>, "the dimensions of the thumbnail are " \o ToString(o.dims)>>,
                <<o.ydim = <<Guard, n.h, Guard>>, "the height alone is not given">>, <<o.blob = n.blob, "the data of the thumbnail isn't the file's">> >>)
BitmapVerdict(r, o) ==
  IF r.kind = "null" THEN Check(<< <<o.blob.null /\ o.blob.n = 0 /\ o.dims = Filled(4), "a null bitmap is described">> >>)
  ELSE LET n == r.n IN
       Check(<< <<o.fmt = DataNum(n.dt), "the format of the bitmap is " \o ToString(o.fmt) \o " for " \o n.dt>>,
                <<o.dims = <<Guard, n.w, n.h, Guard>>, "the dimensions of the bitmap are " \o ToString(o.dims)>>,
                <<o.bpc = n.bpc, "the bits per component of the bitmap are " \o ToString(o.bpc)>>, <<o.blob = n.blob, "the data of the bitmap isn't the rendered one">> >>)
RawVerdict(r, o) ==
  IF r.kind = "null" THEN Check(<< <<o.blob.null /\ o.blob.n = 0 /\ o.dims = Filled(6) /\ o.bpc = 0, "a null raw data is described">> >>)
  ELSE LET n == r.n IN
       Check(<< <<o.fmt = DataNum(n.dt), "the format of the raw data is " \o ToString(o.fmt) \o " for " \o n.dt>>,
                <<o.dims = <<Guard, n.w, n.h, Guard, Guard, Guard>> \/ o.dims = <<Guard, n.w, n.h>> \o Filled(3), "the dimensions of the raw data are " \o ToString(o.dims)>>,
                <<o.blob = n.blob, "the data isn't the native one">>, <<o.bpc = n.bpc, "the bits per component are " \o ToString(o.bpc)>>,
                <<RectOf(o.aa, n.aa), "the active area is " \o ToString(o.aa)>>, <<RectOf(o.crop, n.crop), "the user crop is " \o ToString(o.crop)>>,
                <<IF n.ar = <<>> THEN o.ar = [e |-> ErrNotFound, v |-> Filled(4)] ELSE o.ar = [e |-> ErrNone, v |-> <<Guard>> \o n.ar \o <<Guard>>], "the aspect ratio is " \o ToString(o.ar)>>,
                <<o.lve = ErrNone /\ o.lv = <<Guard16>> \o n.blacks \o <<Guard16, Guard16>> \o n.whites \o <<Guard16>>, "the levels are " \o ToString(o.lv)>>,
                <<IF n.fwb = <<>> THEN o.wbe = ErrNotFound /\ o.wb = [i \in 1..6 |-> GuardF] ELSE o.wbe = ErrNone /\ o.wb = <<GuardF>> \o n.fwb \o <<GuardF>>, "the white balance isn't the native one">>,
                <<IF n.fxy = <<>> THEN o.xye = ErrNotFound /\ o.xy = [i \in 1..4 |-> GuardF] ELSE o.xye = ErrNone /\ o.xy = <<GuardF>> \o n.fxy \o <<GuardF>>, "the white point isn't the native one">>,
                <<o.comp = n.comp, "the compression is " \o ToString(o.comp)>>, <<o.cfa = CfaNum[n.cfa] /\ o.mcfa = o.cfa, "the pattern type is " \o ToString(o.cfa) \o " for " \o n.cfa>>,
                <<o.patn = Len(n.cfap) /\ o.pat = n.cfap, "the mosaic is " \o ToString(o.pat)>>, <<o.cms = n.cms, "the colour matrices are not the native ones">> >>)

(* a value and the text it is converted to, the first time it is asked for *)
Conv(c, full) == IF c # "none" THEN c ELSE IF full THEN "full" ELSE "short"
ValueVerdict(n, c, o) ==
  Check(<< <<~ o.null, "a value is null">>, <<o.count = n.count, "the count of the value is " \o ToString(o.count)>>, <<o.str = n.str, "the string of the value isn't the native one">>,
           <<~ o.text.null /\ o.text.s = n[c], "the text of the value isn't the " \o c \o " one">> >>)
NullValue(o) == o.null /\ o.count = 0 /\ o.str.null /\ o.text.null
DirNull(d) == d.null /\ d.count = 0 - 1 /\ d.id.null /\ d.type = InvalidIfd
Prefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
ExifImage == <<69, 120, 105, 102, 46, 73, 109, 97, 103, 101, 46>>
ExifPhoto == <<69, 120, 105, 102, 46, 80, 104, 111, 116, 111, 46>>
DirPrefix(d) == CASE d.type = 1 -> ExifImage [] d.type = 2 -> ExifPhoto [] d.type = 3 /\ d.id.s # <<>> -> d.id.s \o <<46>> [] OTHER -> <<>>
EntryVerdict(r, o, full) ==
  IF r.kind = "null" \/ r.pos = 0 \/ r.pos > Len(r.n.list) THEN (IF o.null /\ o.key.null /\ o.type = 0 /\ NullValue(o.val) THEN "" ELSE "there is an entry before the first or after the last")
  ELSE LET n == r.n.list[r.pos]  v == ValueVerdict(n.val, Conv(r.conv, full), o.val) IN
       IF o.null \/ o.key.s # n.key THEN "the entry isn't that of " \o ToString(r.pos)
       ELSE IF o.type # n.type THEN "the type of the entry is " \o ToString(o.type)
       ELSE IF v # "" THEN v
       ELSE IF o.dir.null \/ o.dir.count < 1 \/ ~ Prefix(DirPrefix(o.dir), o.key.s) THEN "the directory isn't that of the entry" ELSE ""
DirVerdict(r, o) ==
  IF r.kind = "null" THEN (IF DirNull(o.i) /\ \A i \in 1..Len(o.names) : o.names[i].null THEN "" ELSE "a null directory is described")
  ELSE Check(<< <<o.i.count = r.n.count, "the count of entries is " \o ToString(o.i.count)>>, <<~ o.i.id.null /\ o.i.id.s = r.n.id, "the id of the directory isn't the native one">>,
                <<o.i.type = IfdNum[r.n.type], "the type of the directory is " \o ToString(o.i.type)>>,
                <<\A i \in 1..Len(o.names) : ~ o.names[i].null /\ o.names[i].s = r.n.names[i], "the name of a tag isn't the native one">> >>)

(* the rendering options: the target in the 4 low bits, then the stage *)
OptStage(o) == (o \div 16) % 4
OptSpace(o) == IF o % 16 <= 3 THEN o % 16 ELSE 3
=============================================================================
