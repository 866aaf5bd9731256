------------------------------- MODULE Detect -----------------------------
(* Working out the structure of a body from its file name and content.      *)
(* A file has the parts of its name (segs), and content as far as it        *)
(* matters: for JSON and CBOR the kind of the first value, for CSV groups   *)
(* of equal rows. A cell has its type as text, and whether it may head a    *)
(* column. A structure has fields fmt, comp, conf, schema; "" and <<>> mean *)
(* not set.                                                                 *)
EXTENDS Settings

TypeOrder == <<"null", "integer", "number", "boolean", "string", "object", "array">>

\* ---- content to schema; <<>> where the content can not be told
TypeOnly(t) == <<[type |-> t, cols |-> <<>>]>>

IsHeader(row) == Len(row) > 0 /\ \A i \in 1..Len(row) : row[i].head
\* rows that tell types: as wide as the first, and not the header
Width(groups) == Len(groups[1].row)
Telling(groups, g) == Len(groups[g].row) = Width(groups)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Tally(groups, col, type) ==
  SumTo([g \in 1..Len(groups) |->
          IF Telling(groups, g) /\ groups[g].row[col].type = type
          THEN groups[g].n - (IF g = 1 /\ IsHeader(groups[1].row) THEN 1 ELSE 0) ELSE 0], Len(groups))
\* the type most cells have, the first in order among equals
ColumnType(groups, col) ==
  LET t == [i \in 1..7 |-> Tally(groups, col, TypeOrder[i])]
      best == {i \in 1..7 : t[i] > 0 /\ \A j \in 1..7 : t[j] < t[i] \/ (t[j] = t[i] /\ i <= j)}
  IN IF best = {} THEN "" ELSE TypeOrder[CHOOSE i \in best : TRUE]
Columns(groups) ==
  [c \in 1..Width(groups) |->
    [title |-> IF IsHeader(groups[1].row) THEN groups[1].row[c].title ELSE "field_" \o ToString(c),
     type |-> ColumnType(groups, c)]]
Ragged(groups) == \E g \in 1..Len(groups) : ~Telling(groups, g)
RowCount(groups) == SumTo([g \in 1..Len(groups) |-> groups[g].n], Len(groups)) - (IF IsHeader(groups[1].row) THEN 1 ELSE 0)
CSVConf(groups) == [headerRow |-> Flag(IsHeader(groups[1].row)), lazyQuotes |-> Flag(TRUE), variadicFields |-> Flag(Ragged(groups)), separator |-> Absent]

Guess(fmt, comp, f) ==
  CASE fmt \in {"json", "cbor"} -> IF f.first \in {"array", "object"} THEN <<[fmt |-> fmt, comp |-> comp, conf |-> <<>>, schema |-> TypeOnly(f.first)]>> ELSE <<>>
    [] fmt = "ndjson" -> <<[fmt |-> fmt, comp |-> comp, conf |-> <<>>, schema |-> TypeOnly("array")]>>
    \* there is no looking into a spreadsheet
    [] fmt = "xlsx" -> <<[fmt |-> fmt, comp |-> comp, conf |-> <<>>, schema |-> TypeOnly("array")]>>
    [] fmt = "csv" -> IF Len(f.groups) = 0 THEN <<>>
                      ELSE <<[fmt |-> fmt, comp |-> comp, conf |-> <<CSVConf(f.groups)>>, schema |-> <<[type |-> "array", cols |-> Columns(f.groups)]>>]>>
    [] OTHER -> <<>>

\* ---- filling in what is missing. What is set stays.
Empty == [fmt |-> "", comp |-> "", conf |-> <<>>, schema |-> <<>>]
Fill(st, g) ==
  LET fmt == IF st.fmt # "" THEN st.fmt ELSE g.fmt
  IN [fmt |-> fmt, comp |-> IF st.comp # "" THEN st.comp ELSE g.comp,
      conf |-> IF st.conf # <<>> THEN st.conf ELSE IF fmt = g.fmt THEN g.conf ELSE <<>>,
      schema |-> IF st.schema # <<>> THEN st.schema ELSE g.schema]
\* nothing to work out
Complete(st) == st.fmt # "" /\ st.schema # <<>> /\ ~(st.fmt \in {"csv", "xlsx"} /\ st.conf = <<>>)

\* has: is there a body file. A file may fail when it is read.
Detect(has, f, st) ==
  IF Complete(st) THEN [res |-> "ok", st |-> st]
  ELSE IF ~has THEN [res |-> "err", st |-> st]
  ELSE LET n == FromName(f.segs)
           g == IF n.res = "ok" THEN Guess(n.fmt, n.comp, f) ELSE <<>>
       IN IF g = <<>> THEN [res |-> "err", st |-> st] ELSE [res |-> "ok", st |-> Fill(st, g[1])]
===========================================================================
