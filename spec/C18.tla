-------------------------------- MODULE C18 --------------------------------
(* Conformance on damaged files.  Every query is enabled in every state of a *)
(* handle and has an outcome: an answer, no answer, or an error.  There is   *)
(* no transition to a crashed or hung state.                                 *)
EXTENDS TraceKit

VARIABLES n, k, handle
vars == <<n, k, handle>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 0 /\ handle = "closed"
Outcomes == {"ok", "none", "err"}

Open ==
  /\ k = 0 /\ UNCHANGED n
  /\ IF C.fatal # "" THEN Report(C.id, 0, "the process ended: " \o C.fatal) /\ k' = 1000 /\ UNCHANGED handle
     ELSE IF C.open.st \notin Outcomes THEN Report(C.id, 0, "opening: " \o ToString(C.open)) /\ k' = 1000 /\ UNCHANGED handle
     ELSE k' = 1 /\ handle' = IF C.open.st = "ok" THEN "open" ELSE "closed"
Query ==
  /\ k \in 1..Len(C.obs) /\ UNCHANGED <<n, handle>>
  /\ handle = "open"
  /\ IF C.obs[k].st \notin Outcomes
     THEN Report(C.id, k, "no answer to " \o (IF k <= Len(C.ops) THEN ToString(C.ops[k][2]) ELSE "closing") \o ": " \o C.obs[k].st) /\ k' = 1000
     ELSE k' = k + 1
(* memory that the size of the file bounds *)
End ==
  /\ k = Len(C.obs) + 1 /\ UNCHANGED <<n, handle>>
  /\ IF handle = "open" /\ Len(C.obs) < Len(C.ops) THEN Report(C.id, k, "queries without an outcome")
     ELSE IF C.peak > 65536 + 4 * C.size THEN Report(C.id, k, "memory: " \o ToString(C.peak) \o " kB")
     ELSE Finish(C.id)
  /\ k' = 1000
Next == Open \/ Query \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
