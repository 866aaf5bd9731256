------------------------------ MODULE Tabular -----------------------------
(* Columns of tables, as schemas describe them, and rows made for them.     *)
(* A field of a column is [has, text]: has "no", "text" or "other"; a list  *)
(* of types has elements like fields. Other keywords are pairs of texts.    *)
EXTENDS Naturals, Sequences, TLC

\* what a column shows, for the i-th, counting from one
TypesOf(c) ==
  IF c.type.has = "text" THEN <<c.type.text>>
  ELSE IF c.type.has = "list" THEN LET t == SelectSeq(c.type.list, LAMBDA x : x.has = "text") IN [k \in 1..Len(t) |-> t[k].text]
  ELSE <<>>
Column(c, i) ==
  [title |-> IF c.object /\ c.title.has = "text" THEN c.title.text ELSE "col_" \o ToString(i - 1),
   types |-> IF ~c.object \/ TypesOf(c) = <<>> THEN <<"string">> ELSE TypesOf(c),
   desc |-> IF c.object /\ c.desc.has = "text" THEN c.desc.text ELSE "",
   rest |-> IF c.object THEN c.rest ELSE <<>>]
Problems(c, i) ==
  IF ~c.object THEN <<<<i - 1, "object">>>>
  ELSE (IF c.title.has = "text" THEN <<>> ELSE <<<<i - 1, "title">>>>) \o (IF TypesOf(c) = <<>> THEN <<<<i - 1, "type">>>> ELSE <<>>)
RECURSIVE AllProblems(_, _)
AllProblems(cols, n) == IF n = 0 THEN <<>> ELSE AllProblems(cols, n - 1) \o Problems(cols[n], n)
\* a schema describes a table when it is an array whose items have a list of items
Tabular(s) == s.top = "array" /\ s.items /\ s.list
Columns(cols) == [i \in 1..Len(cols) |-> Column(cols[i], i)]

\* titles that programs can use: names, all different. A title is [text, name],
\* where name says if it is a letter, _ or $, followed by those and digits
TitleProblems(ts, i) ==
  (IF ts[i].name THEN <<>> ELSE <<<<i - 1, "valid">>>>)
  \o (IF \E j \in 1..(i - 1) : ts[j].text = ts[i].text THEN <<<<i - 1, "unique">>>> ELSE <<>>)
RECURSIVE AllTitleProblems(_, _)
AllTitleProblems(ts, n) == IF n = 0 THEN <<>> ELSE AllTitleProblems(ts, n - 1) \o TitleProblems(ts, n)

\* ---- rows: a cell is [k, len, plain]
CellFits(c, type, max) ==
  CASE type = "string" -> c.k = "s" /\ c.len <= max /\ c.plain
    [] type = "integer" -> c.k = "i"
    [] type = "number" -> c.k = "f"
    [] type = "boolean" -> c.k = "b"
    [] type = "null" -> c.k = "n"
    [] type = "object" -> c.k = "{"
    [] type = "array" -> c.k = "["
    [] OTHER -> c.k \in {"s", "i", "f", "b", "n"} /\ (c.k = "s" => c.len <= max /\ c.plain)
RowFits(row, cols, max) == Len(row) = Len(cols) /\ \A i \in 1..Len(cols) : \E k \in 1..Len(cols[i].types) : CellFits(row[i], cols[i].types[k], max)
===========================================================================
