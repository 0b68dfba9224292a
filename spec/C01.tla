-------------------------------- MODULE C01 --------------------------------
(* Conformance of type resolution.  The decision is a small state machine:   *)
(* the caller's hint, else the registered extension, else the content; then  *)
(* the file is opened as that type if there is a reader for it.              *)
EXTENDS TraceKit, IdentifyModel

VARIABLES n, pc, ty
vars == <<n, pc, ty>>

C == Trace[n]
Init == /\ n \in 1..NCases
        /\ pc = (IF "direct" \in DOMAIN Trace[n] THEN "registry" ELSE "hint")
        /\ ty = "none"

UseHint == pc = "hint" /\ C.hint # "" /\ ty' = C.hint /\ pc' = "open"
NoHint == pc = "hint" /\ C.hint = "" /\ pc' = "name" /\ UNCHANGED ty
ByName == pc = "name" /\ C.name # "" /\ ExtOf(C.name) \in DOMAIN ExtType
          /\ ty' = ExtType[ExtOf(C.name)] /\ pc' = "open"
NotByName == pc = "name" /\ ~(C.name # "" /\ ExtOf(C.name) \in DOMAIN ExtType)
          /\ pc' = "sniff" /\ UNCHANGED ty
Sniff == pc = "sniff" /\ ty' = ContentType(C.file) /\ pc' = "open"

Refused(e) == C.open.st = "err" /\ C.open.err \in e
Outcome ==
  IF ty \in Openable
  THEN IF C.open.st # "ok" THEN "should open as " \o ty \o " but was " \o C.open.st
       ELSE LET o == C.obs[1] IN
            IF o.st # "ok" THEN "type query failed"
            ELSE LET t == IF ty = "GPR" THEN "DNG" ELSE IF ty = "NRW" THEN "NEF"
                          ELSE IF ty = "RW" THEN "RW2" ELSE ty
                 IN IF o.t # t THEN "opened as " \o o.t \o " expected " \o t
                    ELSE IF o.mime # MimeOf(t) THEN "wrong MIME " \o o.mime
                    ELSE Good
  ELSE IF ty = "short"
  THEN IF Refused({"BufferTooSmall"}) THEN Good ELSE "short content not refused"
  ELSE IF C.open.st = "err" THEN Good
       ELSE "content of no known type was opened"

Judge == /\ pc = "open"
         /\ pc' = "done" /\ UNCHANGED ty
         /\ IF Outcome = Good THEN Finish(C.id) ELSE Report(C.id, 0, Outcome)

(* the tables *)
Exts == {e \in DOMAIN ExtType : ExtType[e] # "JPEG"}
RegistryOk == LET o == C.obs[1] IN
   /\ o.st = "ok"
   /\ {o.ext[i] : i \in 1..Len(o.ext)} = Exts
   /\ Len(o.ext) = Cardinality(Exts)
   /\ {o.mimes[i].m : i \in 1..Len(o.mimes)} = {Mime[t] : t \in DOMAIN Mime}
   /\ Len(o.mimes) = Cardinality(DOMAIN Mime)
   /\ \A i \in 1..Len(o.mimes) : o.mimes[i].t \in DOMAIN Mime /\ Mime[o.mimes[i].t] = o.mimes[i].m
   /\ o.unk = ""
Registry == /\ pc = "registry" /\ pc' = "done" /\ UNCHANGED ty
            /\ IF RegistryOk THEN Finish(C.id) ELSE Report(C.id, 0, "registry tables")

Next == (UseHint \/ NoHint \/ ByName \/ NotByName \/ Sniff \/ Judge \/ Registry) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
=============================================================================
