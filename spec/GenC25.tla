------------------------------- MODULE GenC25 -------------------------------
(* Enumerates the histories of queries on one handle: in every order that    *)
(* makes the readers of the nested windows of a host alternate.              *)
EXTENDS TLC, Sequences, Integers, FiniteSets, Json, IOUtils

(* the window where each query leaves the stream, by host: 0 the file, 1 the *)
(* embedded block, 2 what is in it, 3 the maker note                         *)
Hosts == {"JPEG", "RAF", "RW2", "MRW", "CR3", "CRW", "NEF", "ORF", "PEF", "DNG"}
Block(h) == CASE h \in {"RAF", "RW2"} -> 2 [] h \in {"JPEG", "MRW", "CR3", "CRW"} -> 1 [] OTHER -> 0
Leaves(h, q) ==
  CASE q = "main" /\ h = "RW2" -> 0
    [] q \in {"main", "exif", "meta"} -> Block(h)
    [] q \in {"mnote", "dump"} -> 3
    [] q \in {"small", "large"} -> IF Block(h) = 0 THEN 3 ELSE Block(h)
    [] q = "raw" -> 0
Queries == {"main", "exif", "mnote", "small", "large", "raw", "meta", "dump"}
Depth == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3

VARIABLES host, hist, at, moved
(* at: the window the stream was left in; moved: how often that changed *)
Init == host \in Hosts /\ hist = <<>> /\ at = 0 /\ moved = 0
Ask(q) ==
  /\ Len(hist) < Depth /\ (IF hist = <<>> THEN TRUE ELSE q # hist[Len(hist)])
  /\ hist' = Append(hist, q) /\ UNCHANGED host
  /\ at' = Leaves(host, q) /\ moved' = moved + (IF at' = at THEN 0 ELSE 1)
Next == \E q \in Queries : Ask(q)
(* the histories that go back and forth *)
Emit == Len(hist) = Depth /\ moved >= 1 /\ (hist[1] = hist[Depth] \/ Cardinality({hist[i] : i \in 1..Depth}) = Depth)
        => PrintT("@CASE " \o ToJson([host |-> host, hist |-> hist]))
=============================================================================
