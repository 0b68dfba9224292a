------------------------------ MODULE TraceKit ------------------------------
(* Frame of every conformance specification.  A trace is a set of cases; a   *)
(* case is a behaviour: the file, then the queries in order with what the    *)
(* implementation answered (logged by the harness).  Each specification      *)
(* instantiates the frame with an operator that judges one observation in a  *)
(* specification state, giving the next state and a verdict.                 *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
NCases == Len(Trace)

(* verdicts: "" is conforming, anything else says what the deviation is *)
Good == ""
Report(id, k, why) == PrintT("@MISMATCH " \o ToJson([id |-> id, k |-> k, why |-> why]))
Finish(id) == PrintT("@DONE " \o ToJson([id |-> id]))
=============================================================================
