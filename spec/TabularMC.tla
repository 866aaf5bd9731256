----------------------------- MODULE TabularMC ----------------------------
(* All tables of up to MaxCols columns from a choice of columns; each is a  *)
(* scenario.                                                                *)
EXTENDS Tabular, Json
CONSTANT MaxCols
VARIABLE cols
F(has, text) == [has |-> has, text |-> text, list |-> <<>>]
No == F("no", "")
L(l) == [has |-> "list", text |-> "", list |-> l]
Titles == {No, F("text", "a"), F("text", "b c"), F("text", ""), F("other", "")}
Types == {No, F("text", "integer"), F("text", ""), F("other", ""), L(<<>>), L(<<F("text", "number"), F("text", "null")>>), L(<<F("other", ""), F("text", "boolean")>>), L(<<F("other", "")>>)}
Descs == {No, F("text", "about"), F("other", "")}
Rests == {<<>>, <<<<"maximum", "5">>>>, <<<<"enum", "[1]">>, <<"format", "\"date\"">>>>}
Col(t, y, d, r) == [object |-> TRUE, title |-> t, type |-> y, desc |-> d, rest |-> r]
Some == {[object |-> FALSE, title |-> No, type |-> No, desc |-> No, rest |-> <<>>]}
        \cup {Col(t, y, No, <<>>) : t \in Titles, y \in Types}
Full == Some \cup {Col(t, y, d, r) : t \in Titles, y \in Types, d \in Descs, r \in Rests}
Init == cols \in {<<>>} \cup {<<c>> : c \in Full}
Next == Len(cols) > 0 /\ Len(cols) < MaxCols /\ cols[1] \in Some /\ \E c \in Some : cols' = Append(cols, c)
Spec == Init /\ [][Next]_cols
C == Columns(cols)
Laws ==
  /\ \A i \in 1..Len(C) : C[i].types # <<>>
  /\ AllProblems(cols, Len(cols)) = <<>> <=> \A i \in 1..Len(cols) : cols[i].object /\ cols[i].title.has = "text" /\ TypesOf(cols[i]) # <<>>
  \* describing columns again as schemas gives the same columns
  /\ Columns([i \in 1..Len(C) |-> Col(F("text", C[i].title), IF Len(C[i].types) = 1 THEN F("text", C[i].types[1]) ELSE L([k \in 1..Len(C[i].types) |-> F("text", C[i].types[k])]),
                                      IF C[i].desc = "" THEN No ELSE F("text", C[i].desc), C[i].rest)]) = C
Emit == PrintT("SCN " \o ToJson([cols |-> cols]))
===========================================================================
