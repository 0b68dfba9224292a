------------------------------- MODULE MetaQ -------------------------------
(* The metadata queries over a list of directories: the iteration, the       *)
(* lookup by key in the main directory, and the orientation.  tables[i] is   *)
(* the table the names of directory i are in.                                *)
EXTENDS MetaVal

NameSpace(kind) == CASE kind = "Main" -> "Exif.Image" [] kind = "Exif" -> "Exif.Photo"
                     [] kind = "Raw" -> "Raw" [] kind = "MakerNote" -> "MakerNote"
                     [] kind = "GpsInfo" -> "GPSInfo" [] OTHER -> "other"
Key(d, e, table) == NameSpace(d.kind) \o "." \o NameIn(table, e.tag)

(* the iteration yields the directories in order, each by ascending tag *)
Items(ds, tables) ==
  Concat([i \in 1..Len(ds) |-> [j \in 1..Len(ds[i].es) |->
           [d |-> ds[i], e |-> ds[i].es[j], key |-> Key(ds[i], ds[i].es[j], tables[i])]]])
ItemVerdict(x, o) ==
  CASE o.key # x.key -> "key " \o o.key \o " instead of " \o x.key
    [] o.type # x.e.type -> "type of " \o x.key
    [] OTHER -> ValueVerdict(x.e, x.d.le, o.val)
MetaVerdict(ds, tables, o) ==
  LET xs == Items(ds, tables) IN
  IF o.st # "ok" THEN "no metadata"
  ELSE IF Len(o.list) # Len(xs) THEN ToString(Len(o.list)) \o " metadata instead of " \o ToString(Len(xs))
  ELSE FirstBad([i \in 1..Len(xs) |-> ItemVerdict(xs[i], o.list[i])])

(* lookup: the first entry of the main directory with that key *)
Lookup(d, table, key) == IF ~d.ok THEN 0 ELSE SelectInSeq(d.es, LAMBDA e : Key(d, e, table) = key)
GetVerdict(d, table, key, o) ==
  LET i == Lookup(d, table, key) IN
  IF i = 0 THEN IF o.st = "none" THEN "" ELSE "value for the absent key " \o key
  ELSE IF o.st # "ok" THEN "no value for key " \o key
  ELSE ValueVerdict(d.es[i], d.le, o.val)
Orientation(d, table) ==
  LET i == Lookup(d, table, "Exif.Image.Orientation") IN
  IF i = 0 THEN 0
  ELSE LET e == d.es[i]  u == Units(e, d.le) IN
       IF e.type \in {TShort, TLong} /\ Len(u) > 0 THEN u[1] ELSE 0
OrientVerdict(d, table, o) == IF o.v = Orientation(d, table) THEN "" ELSE "orientation " \o ToString(o.v)
=============================================================================
