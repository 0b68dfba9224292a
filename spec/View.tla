-------------------------------- MODULE View --------------------------------
(* Windows into one file, read through one stream.  A window is a place of   *)
(* the file, the end of the file ends it; windows are nested (a preview in a *)
(* block, its Exif data in the preview, the maker note in the Exif data).    *)
(* All share the stream, that has a single position: a reader that is        *)
(* suspended while another reads (an entry whose data is elsewhere, another  *)
(* query) finds the stream where the other left it.  What the library relies *)
(* on: whoever reads puts the stream at its own place first, unless it was   *)
(* the last to use it.  Relaxed turns that off: TLC then finds the mixup.    *)
EXTENDS Integers, Sequences
CONSTANT Relaxed
(* the file, a block of it, what is in the block, and one past the end *)
Size == 5
Windows == 1..4
Parent == <<0, 1, 2, 2>>
Start == <<0, 1, 2, 4>>
Limit == 2
(* the byte at each place of the file is that place *)
File == [i \in 1..Size |-> i]
RECURSIVE Origin(_)
Origin(w) == Start[w] + IF Parent[w] = 0 THEN 0 ELSE Origin(Parent[w])

VARIABLES open,    \* the windows that were made
          pos,     \* where the stream is
          last,    \* who used it last
          cur,     \* where each reader is in its window
          got,     \* what each reader has read since it was last placed
          from     \* and from where in its window
vars == <<open, pos, last, cur, got, from>>
Init == /\ open = {} /\ pos = 0 /\ last = 0
        /\ cur = [w \in Windows |-> 0] /\ from = [w \in Windows |-> 0] /\ got = [w \in Windows |-> <<>>]
(* a window starts in the file or at its end, never outside *)
Make(w) ==
  /\ w \notin open /\ (Parent[w] = 0 \/ Parent[w] \in open) /\ Origin(w) <= Size
  /\ open' = open \cup {w} /\ pos' = Origin(w) /\ last' = w
  /\ UNCHANGED <<cur, got, from>>
Seek(w, p) ==
  /\ w \in open /\ p <= Size - Origin(w)
  /\ pos' = Origin(w) + p /\ last' = w
  /\ cur' = [cur EXCEPT ![w] = p] /\ from' = [from EXCEPT ![w] = p] /\ got' = [got EXCEPT ![w] = <<>>]
  /\ UNCHANGED open
(* one byte *)
Read(w) ==
  /\ w \in open /\ (Relaxed \/ last = w) /\ pos < Size /\ Len(got[w]) < Limit
  /\ got' = [got EXCEPT ![w] = Append(@, File[pos + 1])] /\ pos' = pos + 1 /\ last' = w
  /\ cur' = [cur EXCEPT ![w] = @ + 1]
  /\ UNCHANGED <<open, from>>
(* back to where it was, to go on reading *)
Resume(w) ==
  /\ w \in open /\ last # w
  /\ pos' = Origin(w) + cur[w] /\ last' = w /\ UNCHANGED <<open, cur, got, from>>
Next == \E w \in Windows : Make(w) \/ Read(w) \/ Resume(w) \/ \E p \in 0..Size : Seek(w, p)
Spec == Init /\ [][Next]_vars

(* what is in a window, as a file of its own *)
Own(w) == SubSeq(File, Origin(w) + 1, Size)
Isolated == \A w \in open : got[w] = SubSeq(Own(w), from[w] + 1, from[w] + Len(got[w]))
Inside == \A w \in open : Origin(w) <= Size
=============================================================================
