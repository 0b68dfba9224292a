--------------------------- MODULE IdentifyModel ---------------------------
(* What type a file is.  (properties C01)                                    *)
EXTENDS Tiff

(* types a file can be opened as *)
Openable == {"ARW", "CR2", "CR3", "CRW", "DNG", "ERF", "GPR", "JPEG", "MRW", "NEF", "NRW",
             "ORF", "PEF", "RAF", "RW", "RW2"}
AllTypes == Openable \cup {"SR2", "TIF", "UNKNOWN"}

(* extensions registered, in lower case *)
ExtType == [arw |-> "ARW", cr2 |-> "CR2", cr3 |-> "CR3", dng |-> "DNG", erf |-> "ERF",
            jpg |-> "JPEG", jpeg |-> "JPEG", gpr |-> "GPR", nef |-> "NEF", nrw |-> "NRW",
            orf |-> "ORF", pef |-> "PEF", raf |-> "RAF", raw |-> "RW", rw2 |-> "RW2",
            rwl |-> "RW2", sr2 |-> "ARW"]

Mime == [ARW |-> "image/x-sony-arw", CR2 |-> "image/x-canon-cr2", CR3 |-> "image/x-canon-cr3",
         CRW |-> "image/x-canon-crw", DNG |-> "image/x-adobe-dng", ERF |-> "image/x-epson-erf",
         MRW |-> "image/x-minolta-mrw", NEF |-> "image/x-nikon-nef", NRW |-> "image/x-nikon-nrw",
         ORF |-> "image/x-olympus-orf", PEF |-> "image/x-pentax-pef", RAF |-> "image/x-fuji-raf",
         RW |-> "image/x-panasonic-rw", RW2 |-> "image/x-panasonic-rw2", SR2 |-> "image/x-sony-sr2"]
MimeOf(t) == IF t \in DOMAIN Mime THEN Mime[t] ELSE "application/octet-stream"

Lower(c) == LET p == SelectInSeq([i \in 1..26 |-> Char[64 + i]], LAMBDA x : x = c)
            IN IF p = 0 THEN c ELSE Char[96 + p]
LowerStr(s) == FoldLeft(LAMBDA a, i : a \o Lower(SubSeq(s, i, i)), "", [i \in 1..Len(s) |-> i])
(* extension of a file name: what follows the last dot, if the dot is not first *)
ExtOf(name) ==
  LET dots == {i \in 2..Len(name) : SubSeq(name, i, i) = "."}
  IN IF dots = {} THEN "" ELSE LET m == CHOOSE i \in dots : \A j \in dots : j <= i
                               IN LowerStr(SubSeq(name, m + 1, Len(name)))

(* --- content --- *)
Magic(f, i, s) == Len(f) >= i + Len(s) /\ SubSeq(f, i + 1, i + Len(s)) = s
FtypCrx == <<102, 116, 121, 112, 99, 114, 120, 32>>
CiffHead == <<73, 73, 26, 0, 0, 0, 72, 69, 65, 80, 67, 67, 68, 82>>
RafHead == <<70, 85, 74, 73, 70, 73, 76, 77, 67, 67, 68, 45, 82, 65, 87, 32>>
NIKON == <<78, 73, 75, 79, 78>>
SONY == <<83, 79, 78, 89>>
CANON == <<67, 97, 110, 111, 110>>
EPSON == <<83, 69, 73, 75, 79, 32, 69, 80, 83, 79, 78, 32, 67, 79, 82, 80, 46>>
PENTAX == <<80, 69, 78, 84, 65, 88, 32, 67, 111, 114, 112, 111, 114, 97, 116, 105, 111, 110, 32>>

MakeType(m) == CASE Within(m, NIKON) -> "NEF"
                 [] m = EPSON -> "ERF"
                 [] m = PENTAX -> "PEF"
                 [] Within(m, SONY) -> "ARW"
                 [] m = CANON -> "CR2"
                 [] OTHER -> "none"

TagMake == 271
TagDngVersion == 50706
TiffType(f) ==
  LET d == Dir0(Win(f, 0)) IN
  IF Magic(f, 8, <<67, 82, 2>>) /\ Len(f) >= 12 THEN "CR2"
  ELSE IF ~d.ok THEN "none"
  ELSE IF HasTag(d, TagDngVersion) THEN "DNG"
  ELSE IF HasTag(d, TagMake) /\ Entry(d, TagMake).count > 0
          /\ Entry(d, TagMake).type \in {TAscii, TUndef}
       THEN MakeType(CStr(Entry(d, TagMake).data)) ELSE "none"

(* "short": not enough bytes to tell; "none": no known signature *)
ContentType(f) ==
  IF Len(f) <= 4 THEN "short"
  ELSE CASE Magic(f, 0, <<255, 216, 255, 219>>) -> "JPEG"
         [] Magic(f, 0, <<0, 77, 82, 77>>) -> "MRW"
         [] Magic(f, 4, FtypCrx) -> "CR3"
         [] Magic(f, 0, CiffHead) -> "CRW"
         [] Magic(f, 0, <<73, 73, 82, 79>>) \/ Magic(f, 0, <<73, 73, 82, 83>>) -> "ORF"
         [] Magic(f, 0, <<73, 73, 85, 0>>) -> "RW2"
         [] Magic(f, 0, RafHead) -> "RAF"
         [] Order(Win(f, 0)) # "bad" -> TiffType(f)
         [] OTHER -> "none"
=============================================================================
