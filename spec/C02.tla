-------------------------------- MODULE C02 --------------------------------
(* Conformance of the reading of TIFF directories: every directory and every *)
(* entry of the file is reported as it is in the file.                       *)
EXTENDS TraceKit, MetaVal

VARIABLES n, k
vars == <<n, k>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1

W == Win(C.file, 0)
IdOf(kind) == kind
FileOrder(c) == OrderFor(Win(c.file, 0), c.hint)
DirsOf(c) == ChainFor(Win(c.file, 0), FileOrder(c), c.kinds)
(* the name table of the main directory *)
MainTable(c) == IF c.hint = "RW2" THEN "RAW_PANASONIC" ELSE "EXIF"
DumpVerdict(c, o) ==
  LET w == Win(c.file, 0)
      ch == DirsOf(c)
      all == Concat([i \in 1..Len(ch) |-> DumpedDirs(w, ch[i], IdOf(ch[i].kind), IF i = 1 THEN MainTable(c) ELSE "EXIF")])
      got == SelectSeq(o.items, LAMBDA x : x.x = "ifd")
      head == SelectSeq(o.items, LAMBDA x : x.x = "tiff")
      lines == SelectSeq(o.items, LAMBDA x : x.x = "line")
  IN IF Len(head) # 1 \/ head[1].n # Len(ch) \/ head[1].off # 0
        \/ head[1].e # (IF FileOrder(c) = "le" THEN "II" ELSE "MM") THEN "dump: container"
     ELSE IF Len(lines) # 3 THEN "dump: unexpected line"
     ELSE IF Len(got) # Len(all) THEN "dump: " \o ToString(Len(got)) \o " directories instead of " \o ToString(Len(all))
     ELSE FirstBad([i \in 1..Len(all) |-> DumpDirVerdict(all[i].dir, all[i].depth, all[i].id, all[i].table, got[i])])

Verdict(c, i) ==
  LET op == c.ops[i]  o == c.obs[i]  ch == DirsOf(c)  w == Win(c.file, 0)
      d0 == IF Len(ch) > 0 THEN ch[1] ELSE NoDir
  IN IF o.st \in {"panic", "reopen-failed"} THEN o.st
     ELSE CASE op[1] = "ifd" /\ op[2] = "main" -> DirVerdict(d0, IF d0.ok THEN IdOf(d0.kind) ELSE "", MainTable(c), o)
            [] op[1] = "ifd" /\ op[2] = "exif" -> DirVerdict(ExifOf(w, d0), "Exif", "EXIF", o)
            [] op[1] = "dump" -> DumpVerdict(c, o)
            [] OTHER -> "unknown query"

Next ==
  /\ k <= Len(C.ops) + 1
  /\ UNCHANGED n
  /\ IF C.open.st # "ok" THEN Report(C.id, 0, "the file does not open") /\ k' = 1000
     ELSE IF k > Len(C.ops) THEN Finish(C.id) /\ k' = 1000
     ELSE LET v == Verdict(C, k) IN
          IF v = Good THEN k' = k + 1 ELSE Report(C.id, k, v) /\ k' = 1000
Spec == Init /\ [][Next]_vars
=============================================================================
