----------------------------- MODULE DetectMC -----------------------------
(* All small tables and structures: laws of detection, and scenarios.       *)
EXTENDS Detect, TLC, Json
CONSTANT MaxRows
VARIABLES rows, pre, done
Cells == {"i", "f", "s", "b", "e", "n", "w"}
\* cell kinds to what they are: integer, number, word, boolean, empty, null, wide row mark
T(c) == CASE c = "i" -> "integer" [] c = "f" -> "number" [] c = "b" -> "boolean" [] c = "n" -> "null" [] OTHER -> "string"
Cell(c) == [type |-> T(c), head |-> c \in {"s", "n"}, title |-> c]
Row(r) == IF r[1] = "w" THEN <<Cell(r[2]), Cell("s"), Cell("s")>> ELSE <<Cell(r[1]), Cell(r[2])>>
RowKinds == ({"i", "s", "w"} \X {"i", "s", "b"}) \cup {<<"f", "e">>, <<"i", "n">>, <<"s", "n">>}
GroupsOf(rs) == [g \in 1..Len(rs) |-> [n |-> 1, row |-> Row(rs[g])]]
Groups == GroupsOf(rows)
FileOf(rs) == [segs |-> <<"b", "csv">>, first |-> "", groups |-> GroupsOf(rs), fault |-> FALSE, entries |-> 0]
Conf == <<[headerRow |-> Flag(TRUE), lazyQuotes |-> Absent, variadicFields |-> Absent, separator |-> Absent]>>
Sch == <<[type |-> "array", cols |-> <<>>]>>
Pres == {[fmt |-> f, comp |-> "", conf |-> c, schema |-> s] : f \in {"", "csv", "json"}, c \in {<<>>, Conf}, s \in {<<>>, Sch}}
Init == rows = <<>> /\ pre \in Pres /\ done = Detect(TRUE, FileOf(<<>>), pre)
Next == Len(rows) < MaxRows /\ \E r \in RowKinds : rows' = Append(rows, r) /\ UNCHANGED pre /\ done' = Detect(TRUE, FileOf(rows'), pre)
Spec == Init /\ [][Next]_<<rows, pre, done>>
Done == done
\* what is set stays
Keeps == /\ pre.fmt # "" => Done.st.fmt = pre.fmt
         /\ pre.conf # <<>> => Done.st.conf = pre.conf
         /\ pre.schema # <<>> => Done.st.schema = pre.schema
\* detecting again changes nothing
Again == Done.res = "ok" => LET d == Detect(TRUE, FileOf(rows), Done.st) IN d.res = "ok" /\ d.st = Done.st
Fails == Done.res = "err" => Done.st = pre
\* a type that all cells of a column have is its type
AllSame == (Done.res = "ok" /\ pre = Empty) =>
  \A c \in 1..Width(Groups) : \A t \in {"integer", "number", "boolean", "string", "null"} :
    (RowCount(Groups) > 0 /\ \A g \in (IF IsHeader(Groups[1].row) THEN 2 ELSE 1)..Len(rows) : Telling(Groups, g) /\ Groups[g].row[c].type = t)
    => Done.st.schema[1].cols[c].type = t
Scenario == (rows # <<>> /\ (Len(rows) <= 2 \/ pre = Empty)) => PrintT("SCN " \o ToJson([rows |-> rows, pre |-> pre]))
===========================================================================
