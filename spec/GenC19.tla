------------------------------- MODULE GenC19 -------------------------------
(* Enumerates the clients of the C API: every sequence of calls, of objects  *)
(* that are there, up to a length; the client then releases what is left, in *)
(* one order or the other.                                                    *)
EXTENDS CApi, SequencesExt, Json, IOUtils

Tags == <<271, 306, 33434, 1>>
Vocabulary == {
  <<"new", 1, 0, "mem", 0, "">>, <<"new", 2, 0, "path", 0, "">>,
  <<"thumb", 1, 3, 160, TRUE>>, <<"iter", 1, 5>>, <<"ifd", 1, 7, 2, "exif", Tags>>, <<"meta", 1, 6, "Exif.Image.Make">>, <<"raw", 1, 4, 0, TRUE>>,
  <<"render", 1, 8, 51, TRUE, 3, 3>>,
  <<"file", 1>>, <<"file", 2>>, <<"tinfo", 3>>, <<"rinfo", 4>>, <<"binfo", 8>>, <<"next", 5>>, <<"entry", 5, TRUE>>, <<"vinfo", 6, FALSE>>, <<"vinfo", 6, TRUE>>, <<"dinfo", 7, Tags>>,
  <<"reread", 1, "sizes">>, <<"reread", 5, "key">>, <<"reread", 5, "text">>, <<"reread", 6, "string">>, <<"reread", 6, "text">>, <<"reread", 7, "id">>, <<"reread", 3, "data">>, <<"reread", 4, "data">>,
  <<"release", 1, "file">>, <<"release", 2, "file">>, <<"release", 3, "thumb">>, <<"release", 4, "raw">>, <<"release", 5, "iter">>, <<"release", 6, "value">>, <<"release", 8, "bitmap">> }
Obj(kind, owner) == [kind |-> kind, owner |-> owner]
Apply(sl, op) ==
  LET f == op[1] IN
  CASE f = "new" -> Put(sl, op[2], Obj("file", 0))
    [] f \in DOMAIN Creates -> Put(sl, op[3], Obj(Creates[f], op[2]))
    [] f = "release" -> Drop(sl, op[2])
    [] OTHER -> sl
First1 == <<"new", 1, 0, "mem", 0, "">>
Depth == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3

VARIABLES ops, sl, up
(* asking twice in a row for the same thing is left to the random clients *)
Call(op) == Allowed(sl, op) /\ (op[1] = "new" \/ op[2] \in DOMAIN sl) /\ op # ops[Len(ops)]
Live(t) == {s \in DOMAIN t : t[s].kind # "ifd"}
Closing == LET l == SetToSortSeq(Live(sl), LAMBDA a, b : IF up THEN a < b ELSE a > b) IN [i \in 1..Len(l) |-> <<"release", l[i], sl[l[i]].kind>>]
Init == ops = <<First1>> /\ sl = Apply(<<>>, First1) /\ up \in BOOLEAN
Next == /\ UNCHANGED up
        /\ IF Len(ops) <= Depth
           THEN \E op \in Vocabulary : Call(op) /\ ops' = Append(ops, op) /\ sl' = Apply(sl, op)
           ELSE sl # <<>> /\ Len(ops) < 100 /\ ops' = ops \o Closing \o [i \in 1..100 |-> <<>>] /\ sl' = <<>>
                /\ PrintT("@CASE " \o ToJson([capi |-> ops \o Closing]))
(* a directory has its file, and what is live can be released *)
Sound == /\ \A s \in DOMAIN sl : sl[s].kind = "ifd" => sl[s].owner \in DOMAIN sl
         /\ \A s \in Live(sl) : \E op \in Vocabulary : op[1] = "release" /\ op[2] = s /\ Allowed(sl, op)
=============================================================================
