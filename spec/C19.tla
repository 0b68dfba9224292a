-------------------------------- MODULE C19 --------------------------------
(* Conformance of C clients: each call answers what the native API does for  *)
(* the same object, writes only what it documents, and leaves the objects    *)
(* valid until they are released.                                            *)
EXTENDS TraceKit, CApi

VARIABLES n, k, sl
vars == <<n, k, sl>>
C == Trace[n]
Init == n \in 1..NCases /\ k = 1 /\ sl = <<>>

Verdict(op, o) ==
  LET f == op[1]  r == At(sl, op[2]) IN
  IF ~ Allowed(sl, op) THEN "the scenario isn't a client's"
  ELSE CASE f = "new" -> IF o.null # (o.n.st # "ok") THEN "creating the file: the C API " \o (IF o.null THEN "fails" ELSE "succeeds") \o " and the native one is " \o o.n.st ELSE ""
    [] f = "release" -> IF o.e # (IF r.kind # "null" \/ op[3] \in {"value", "iter"} THEN ErrNone ELSE ErrNotARef) THEN "releasing is " \o ToString(o.e) ELSE ""
    [] f = "file" -> FileVerdict(r, o)
    [] f = "cm" -> MatrixVerdict(r, op, o)
    [] f \in {"thumb", "raw", "render"} ->
         LET v == ErrorOut(o.n, o.e, op[5]) IN
         IF f = "render" /\ (op[6] # OptStage(op[4]) \/ op[7] # OptSpace(op[4])) THEN "the scenario isn't a client's"
         ELSE IF ~ Created(o, o.n) THEN f \o ": the C API " \o (IF o.null THEN "fails" ELSE "succeeds") \o " and the native one is " \o o.n.st ELSE v
    [] f \in {"xthumb", "xraw"} ->
         IF op[5] THEN (IF o.null /\ o.e[2] = ErrNotARef THEN "" ELSE "extracting to nowhere is " \o ToString(o.e))
         ELSE IF ~ Created(o, o.n) THEN f \o ": the C API " \o (IF o.null THEN "fails" ELSE "succeeds") \o " and the native one is " \o o.n.st ELSE ErrorOut(o.n, o.e, TRUE)
    [] f = "tinfo" -> ThumbVerdict(r, o)
    [] f = "binfo" -> BitmapVerdict(r, o)
    [] f = "rinfo" -> RawVerdict(r, o)
    [] f = "meta" -> IF Created(o, o.n) THEN "" ELSE "metadata value: the native one is " \o o.n.st
    [] f = "vinfo" -> IF r.kind = "null" THEN (IF NullValue(o) THEN "" ELSE "a null value is described") ELSE ValueVerdict(r.n, Conv(r.conv, op[3]), o)
    [] f = "iter" -> IF o.null = (r.kind = "null") THEN "" ELSE "the iterator of the metadata"
    [] f = "next" -> IF o.r = (IF r.kind = "iter" /\ r.pos < Len(r.n.list) THEN 1 ELSE 0) THEN "" ELSE "moving the iterator from " \o ToString(r) \o " answers " \o ToString(o.r)
    [] f = "entry" -> EntryVerdict(r, o, op[3])
    [] f = "ifd" -> IF Created(o, o.n) THEN "" ELSE "directory: the native one is " \o o.n.st
    [] f = "dinfo" -> DirVerdict(r, o)
    [] f = "reread" -> IF o.none \/ o.hash = o.was THEN "" ELSE "what the library keeps for the " \o op[3] \o " of " \o r.kind \o " changed"
    [] f = "registry" -> Check(<< <<o.ext = o.n.ext, "the extensions are not the native ones">>, <<o.mimes = o.n.mimes, "the MIME types are not the native ones">>,
                                  <<\A i \in 1..Len(o.t) : o.t[i] = TypeNum[o.n.t[i]], "the type of a MIME type">>, <<o.unk = TypeNum[o.n.unk], "the type of an unknown MIME type">> >>)
    [] f = "nulls" -> IF \A i \in 1..Len(o.num) : o.num[i][2] = NullTable[o.num[i][1]] THEN (IF \A i \in 1..Len(o.untouched) : o.untouched[i] = GuardF THEN "" ELSE "a null object wrote an output")
                      ELSE LET i == CHOOSE i \in 1..Len(o.num) : o.num[i][2] # NullTable[o.num[i][1]] IN "null object, call " \o ToString(i) \o ": " \o ToString(o.num[i])
    [] OTHER -> "unknown call " \o f

Rec(kind, nn) == [kind |-> kind, n |-> nn, conv |-> "none", pos |-> 0, owner |-> 0]
After(op, o) ==
  LET f == op[1] IN
  CASE f = "new" -> IF o.null THEN sl ELSE Put(sl, op[2], Rec("file", o.n))
    [] f = "release" -> Drop(sl, op[2])
    [] f \in DOMAIN Creates -> IF o.null THEN sl ELSE Put(sl, op[3], [Rec(Creates[f], o.n) EXCEPT !.owner = op[2]])
    [] f = "xthumb" -> IF o.null THEN sl ELSE Put(sl, op[3], Rec("thumb", o.n))
    [] f = "xraw" -> IF o.null THEN sl ELSE Put(sl, op[3], Rec("raw", o.n))
    [] f = "vinfo" /\ op[2] \in DOMAIN sl -> [sl EXCEPT ![op[2]].conv = Conv(@, op[3])]
    [] f = "entry" /\ op[2] \in DOMAIN sl -> [sl EXCEPT ![op[2]].conv = IF sl[op[2]].pos = 0 \/ sl[op[2]].pos > Len(sl[op[2]].n.list) THEN "none" ELSE Conv(@, op[3])]
    [] f = "next" /\ op[2] \in DOMAIN sl -> [sl EXCEPT ![op[2]].conv = "none", ![op[2]].pos = IF @ > Len(sl[op[2]].n.list) THEN @ ELSE @ + 1]
    [] OTHER -> sl

End == IF \E s \in DOMAIN sl : sl[s].kind # "ifd" THEN "the scenario doesn't release everything"
       ELSE IF C.leak # 0 THEN "everything was released and " \o ToString(C.leak) \o " bytes are left" ELSE ""
Next ==
  /\ k <= Len(C.capi) + 1
  /\ UNCHANGED n
  /\ IF C.fatal # "" THEN Report(C.id, k, "the client died: " \o C.fatal) /\ k' = 1000000 /\ UNCHANGED sl
     ELSE IF k > Len(C.capi)
       THEN (IF End = "" THEN Finish(C.id) ELSE Report(C.id, k, End)) /\ k' = 1000000 /\ UNCHANGED sl
     ELSE LET v == Verdict(C.capi[k], C.obs[k]) IN
          IF v # "" THEN Report(C.id, k, v) /\ k' = 1000000 /\ UNCHANGED sl
          ELSE k' = k + 1 /\ sl' = After(C.capi[k], C.obs[k])
Spec == Init /\ [][Next]_vars
=============================================================================
