----------------------------- MODULE DsgenTrace ---------------------------
(* Conformance of recorded runs of dsgen.                                   *)
EXTENDS Dsgen, TraceBase
VARIABLES ask,   \* what the arguments of the run ask for
          table, \* of the structure: [schema, header]
          n      \* rows seen
vars == <<l, ask, table, n>>
Init == l = 1 /\ ask = Start /\ table = <<>> /\ n = 0
TBegin == Is("begin") /\ ask' = Start /\ table' = <<>> /\ n' = 0
TRun == Is("run") /\ ask' = Asked(E.args) /\ table' = [schema |-> E.schema, header |-> E.header] /\ n' = 0
TTop == /\ Is("top") /\ UNCHANGED <<ask, table, n>> /\ Works(ask) /\ n = 0
        /\ IF ask.kind = "fixed" THEN E.cells = FixedHead
           ELSE table.header /\ LET c == Columns(table.schema.cols) IN E.cells = [i \in 1..Len(c) |-> c[i].title]
TFixed == /\ Is("fixed") /\ UNCHANGED <<ask, table>> /\ Works(ask) /\ ask.kind = "fixed"
          /\ E.cells = FixedRow(n) /\ E.zeros = FixedZeros /\ n' = n + 1
TRow == /\ Is("row") /\ UNCHANGED <<ask, table>> /\ Works(ask) /\ ask.kind = "good"
        /\ RowFits(E.row, Columns(table.schema.cols), 64) /\ n' = n + 1
\* a run fails exactly when it can not do what is asked, or what it prints
\* can not be written
TExit == /\ Is("exit") /\ UNCHANGED <<ask, table, n>>
         /\ IF E.full THEN E.ok => Works(ask) /\ Rows(ask) = 0 /\ ask.kind = "good" /\ ~table.header
            ELSE /\ E.ok = Works(ask) /\ n = Rows(ask)
                 /\ E.tops = (IF Works(ask) /\ (ask.kind = "fixed" \/ (table.header /\ (n > 0 \/ E.tops = 1))) THEN 1 ELSE 0)
Next == TBegin \/ TRun \/ TTop \/ TFixed \/ TRow \/ TExit
Spec == Init /\ [][Next]_vars
===========================================================================
