-------------------------------- MODULE C17 --------------------------------
(* Conformance of histories of queries.  A handle on a file has no state a   *)
(* query can see: the answer to a query is a function of the file alone.     *)
(* The state is what was answered until now; a query already answered, on    *)
(* any handle on that file, opened in any way, has the same answer.          *)
EXTENDS TraceKit

VARIABLES n, k, memo
vars == <<n, k, memo>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1 /\ memo = <<>>

Query(o) == <<o.f, o.q>>
Answer(o) == <<o.st, o.a, o.n>>
Verdict(o) ==
  IF o.skipped \/ Query(o) \notin DOMAIN memo THEN ""
  ELSE IF memo[Query(o)].a = Answer(o) THEN ""
  ELSE "the answer to " \o o.q \o " on handle " \o ToString(o.h) \o " is " \o o.text \o " and was " \o memo[Query(o)].text
         \o " on handle " \o ToString(memo[Query(o)].h)
Next ==
  /\ k <= Len(C.obs) + 1
  /\ UNCHANGED n
  /\ IF k > Len(C.obs) THEN Finish(C.id) /\ k' = 1000 /\ UNCHANGED memo
     ELSE LET o == C.obs[k]  v == Verdict(o) IN
          IF v # "" THEN Report(C.id, k, v) /\ k' = 1000 /\ UNCHANGED memo
          ELSE /\ k' = k + 1
               /\ memo' = IF o.skipped THEN memo ELSE (Query(o) :> [a |-> Answer(o), h |-> o.h, text |-> o.text]) @@ memo
Spec == Init /\ [][Next]_vars
=============================================================================
