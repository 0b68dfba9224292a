------------------------------- MODULE GenC01 -------------------------------
(* Enumerates the scenarios of C01: every signature, every one byte          *)
(* alteration and every truncation of it, every combination of byte order,   *)
(* make and DNG tag for TIFF content, hints and extensions.                   *)
EXTENDS Build, IdentifyModel, Json, IOUtils

Sigs == << <<255, 216, 255, 219>>, <<0, 77, 82, 77>>, <<0, 0, 0, 24>> \o FtypCrx, CiffHead,
           <<73, 73, 82, 79>>, <<73, 73, 82, 83>>, <<73, 73, 85, 0>>, RafHead,
           <<73, 73, 42, 0, 16, 0, 0, 0, 67, 82, 2, 0>>, <<77, 77, 0, 42, 0, 0, 0, 16, 67, 82, 2, 0>>,
           <<77, 77, 82, 79>>, <<73, 73, 0, 42>>, <<77, 77, 42, 0>>, <<255, 216, 255, 224>> >>
Rest == [i \in 1..24 |-> (i * 37) % 256]

SigFiles == {PadTo(Sigs[k], 5) \o Rest : k \in 1..Len(Sigs)} 
Altered == UNION {{[Sigs[k] EXCEPT ![p] = (Sigs[k][p] + d) % 256] \o Rest : p \in 1..Len(Sigs[k]), d \in {1, 32}} : k \in 1..Len(Sigs)}
Truncated == UNION {{SubSeq(Sigs[k] \o Rest, 1, m) : m \in 0..17} : k \in 1..Len(Sigs)}

Makes == {"", "NIKON CORPORATION", "NIKON", "xNIKONx", "NIKO", "nikon", "SEIKO EPSON CORP.", "SEIKO EPSON CORP",
          "SEIKO EPSON CORP. ", "PENTAX Corporation ", "PENTAX Corporation", "PENTAX", "SONY", "SONY ", "A SONY B",
          "SON", "Canon", "Canon ", "CANON", "OLYMPUS", "Adobe", "Phase One", "Sony"}
Dng == [tag |-> 50706, type |-> 1, count |-> 4, data |-> <<1, 4, 0, 0>>]
W(v, le) == [tag |-> 256, type |-> 4, count |-> 1, data |-> P32(v, le)]
Entries(mk, dng, le) == <<W(100, le)>> \o (IF mk = "" THEN <<>> ELSE <<StrEntry(271, mk)>>)
                        \o (IF dng THEN <<Dng>> ELSE <<>>)
(* the directory at any offset, also where it cannot be read *)
TiffFile(mk, dng, le, off) ==
  PadTo(TiffHead(off, le), off) \o DirBytes(Entries(mk, dng, le), off, 0, le)
TiffFiles == {TiffFile(mk, dng, le, off) : mk \in Makes, dng \in BOOLEAN, le \in BOOLEAN, off \in {8, 14, 32}}
(* make stored with another type, or no directory at the offset *)
Odd == {TiffHead(off, le) \o DirBytes(<<[tag |-> 271, type |-> t, count |-> 6, data |-> AsciiZ("Canon")]>>, 8, 0, le)
          : t \in {1, 2, 6, 7}, le \in BOOLEAN, off \in {0, 8, 9, 100, 10000}}
       \cup {SubSeq(TiffFile("Canon", FALSE, le, 8), 1, Min2(m, 44)) : le \in BOOLEAN, m \in 4..48}
       \cup {TiffHead(8, le) \o DirBytes(<<StrEntry(271, "Canon"), StrEntry(271, "NIKON")>>, 8, 0, le) : le \in BOOLEAN}
       \cup {TiffHead(8, le) \o DirBytes(<<StrEntry(272, "NIKON"), StrEntry(270, "SONY")>>, 8, 0, le) : le \in BOOLEAN}

Contents == SigFiles \cup Altered \cup Truncated \cup TiffFiles \cup Odd

Some4 == {TiffFile("NIKON", FALSE, TRUE, 8), Sigs[1] \o Rest, Rest, <<1, 2, 3>>}
Names == {"a", "noext", "a.txt", "a.crw", "a.mrw", "a.tif", "arw", ".arw", "a.", "a.arw.txt", "a.txt.arw", "a.ar w",
          "x.y.CR2", "p.Cr3", "P.NEF", "p.nEF", "p.JPG", "p.jpeg", "p.RWL", "p.SR2", "p.RAW", "p.Gpr", "p.heic", "cr2.d"}
         \cup {"q." \o e : e \in DOMAIN ExtType}

Case(f, m, h, nm) == [file |-> f, mode |-> m, hint |-> h, name |-> nm, ops |-> << <<"type">> >>]
Cases == {Case(f, "mem", "", "") : f \in Contents}
  \cup {Case(f, "io", "", "") : f \in SigFiles}
  \cup {Case(f, "mem", h, "") : f \in Some4, h \in AllTypes \ {"UNKNOWN"}}
  \cup {Case(f, "path:" \o nm, "", nm) : f \in Some4, nm \in Names}
  \cup {Case(f, "path:" \o nm, h, nm) : f \in Some4, nm \in {"a.nef", "b.txt", "c.cr2"}, h \in Openable}

CaseSeq == SetToSeq(Cases)
Numbered == [k \in 1..Len(CaseSeq) |->
   CaseSeq[k] @@ [id |-> "c" \o ToString(k)]]
ASSUME ndJsonSerialize(IOEnv.OUT, Numbered \o << [id |-> "reg", direct |-> << [fn |-> "registry", arg |-> "image/jpeg"] >>, hint |-> "", name |-> "", file |-> <<>>] >>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
