---------------------------- MODULE DetectTrace ---------------------------
(* Conformance of recorded detections. E.st is the structure afterwards,    *)
(* E.other whether fields detection has nothing to do with are as before.   *)
EXTENDS Detect, TraceBase
VARIABLES st, file, has
vars == <<st, file, has, l>>
NoFile == [segs |-> <<>>, first |-> "", groups |-> <<>>, fault |-> "none", entries |-> 0]
Init == st = Empty /\ file = NoFile /\ has = FALSE /\ l = 1
TBegin == Is("begin") /\ st' = E.st /\ file' = E.file /\ has' = E.has
\* the body, its name and how reading it ends are as they were
BodyKept == has => E.name /\ E.bytes /\ E.size /\ E.end = (IF file.fault = "none" THEN "ok" ELSE "err")
TDetect == /\ Is("detect") /\ UNCHANGED <<file, has>>
           /\ LET d == Detect(has, file, st)
              IN IF file.fault = "early" /\ has /\ ~Complete(st) THEN E.res = "err" /\ E.st = st /\ st' = st
                 ELSE IF file.fault = "late" /\ d.res = "ok" /\ d.st # st
                 \* a file that fails late may have shown enough
                 THEN (E.res = "ok" /\ E.st = d.st /\ st' = d.st) \/ (E.res = "err" /\ E.st = st /\ st' = st)
                 ELSE E.res = d.res /\ E.st = d.st /\ st' = d.st
           /\ E.other /\ BodyKept
\* a file on disk or a reader, without a structure to fill
TFrom == /\ Is("from") /\ UNCHANGED <<st, file, has>>
         /\ LET n == FromName(file.segs)
                g == IF n.res = "ok" THEN Guess(n.fmt, n.comp, file) ELSE <<>>
            IN IF g = <<>> THEN E.res \in {"err", "eof"} ELSE E.res = "ok" /\ E.st = g[1]
\* the body reads with the structure found
TRead == /\ Is("read") /\ UNCHANGED <<st, file, has>>
         /\ E.res = "eof" /\ E.n = (IF st.fmt = "csv" THEN RowCount(file.groups) ELSE file.entries)
\* a schema for rows in memory tells the types of the first row
RowType(k) == CASE k \in {"i", "u", "f"} -> "number" [] k = "b" -> "boolean" [] k = "n" -> "null" [] OTHER -> "string"
TRows == /\ Is("rows") /\ UNCHANGED <<st, file, has>>
         /\ IF E.shape # "rows" THEN E.res = "err"
            ELSE E.res = "ok" /\ E.schema.type = "array"
                 /\ E.schema.cols = [c \in 1..Len(E.kinds) |-> [title |-> "col_" \o ToString(c - 1), type |-> RowType(E.kinds[c])]]
Next == TBegin \/ TDetect \/ TFrom \/ TRead \/ TRows
Spec == Init /\ [][Next]_vars
===========================================================================
