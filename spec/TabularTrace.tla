---------------------------- MODULE TabularTrace --------------------------
(* Conformance of recorded columns and generated rows.                      *)
EXTENDS Tabular, TraceBase
VARIABLE cols  \* of the generator
vars == <<l, cols>>
Init == l = 1 /\ cols = <<>>
TBegin == Is("begin") /\ UNCHANGED cols
TColumns ==
  /\ Is("columns") /\ UNCHANGED cols
  /\ IF Tabular(E.schema)
     THEN /\ E.res = "ok" /\ E.cols = Columns(E.schema.cols)
          /\ E.problems = AllProblems(E.schema.cols, Len(E.schema.cols))
          /\ E.titles = [i \in 1..Len(E.cols) |-> E.cols[i].title]
          /\ E.back = E.cols
     ELSE E.res = "invalid"
TTitles == /\ Is("titles") /\ UNCHANGED cols
           /\ LET p == AllTitleProblems(E.titles, Len(E.titles))
              IN E.res = (IF p = <<>> THEN "ok" ELSE "invalid") /\ E.problems = p
THas == /\ Is("has") /\ UNCHANGED cols /\ E.found = (\E i \in 1..Len(E.types) : E.types[i] = E.type)
TGenerator ==
  /\ Is("generator")
  /\ E.res = IF Tabular(E.schema) THEN "ok" ELSE "err"
  /\ cols' = IF E.res = "ok" THEN Columns(E.schema.cols) ELSE <<>>
TRow == /\ Is("row") /\ UNCHANGED cols
        /\ E.res = "ok" /\ E.index = E.n /\ E.key = ""
        /\ RowFits(E.row, cols, E.max)
\* over many rows a column is not all the same
TMany == /\ Is("many") /\ UNCHANGED cols
         /\ Len(E.differ) = Len(cols)
         /\ \A i \in 1..Len(cols) : cols[i].types[1] \in {"string", "integer", "number", "boolean"} /\ Len(cols[i].types) = 1 => E.differ[i]
TSame == Is("same") /\ UNCHANGED cols /\ E.same
\* rows written and read again are rows that the schema allows
TStored == Is("stored") /\ UNCHANGED cols /\ E.res = "ok" /\ E.errors = 0 /\ E.rows = E.n
Next == TBegin \/ TColumns \/ TTitles \/ THas \/ TGenerator \/ TRow \/ TMany \/ TSame \/ TStored
Spec == Init /\ [][Next]_vars
===========================================================================
