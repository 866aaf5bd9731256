----------------------------- MODULE FixtureMC ----------------------------
(* All directories of a few files. Each is a scenario.                      *)
EXTENDS Fixture, Json, IOUtils
CONSTANT MaxFiles
Formats == <<"cbor", "json", "csv", "xlsx", "ndjson">>
Names == {Input, Expect, Rendered, "notes.txt"} \cup {ScriptOf[c] : c \in Scripts} \cup {BodyNames(Formats)[i] : i \in 1..5}
Kinds(f) == IF f \in {Input, Expect} THEN {"doc", "text", "dir"} ELSE {"text", "dir"}
FileOf(k) == [kind |-> k, text |-> "t", doc |-> IF k = "doc" THEN [ds |-> [id |-> "x"], viz |-> Nothing] ELSE Nothing]
VARIABLE dir
Init == dir = <<>>
Put(f, k) == f \notin DOMAIN dir /\ Cardinality(DOMAIN dir) < MaxFiles /\ dir' = (f :> FileOf(k)) @@ dir
Next == \E f \in Names : \E k \in Kinds(f) : Put(f, k)
Spec == Init /\ [][Next]_dir
\* laws: a body is one there is; bodies after the first do not matter; nor do
\* files of other names; what loads, loads with one more file that is fine
Only(S) == [f \in DOMAIN dir \cap S |-> dir[f]]
Bodies == {BodyNames(Formats)[i] : i \in 1..5}
Laws ==
  /\ LET b == BodyOf(dir, Formats) IN
     /\ b = "" <=> DOMAIN dir \cap Bodies = {}
     /\ b # "" => b \in DOMAIN dir
     /\ Loads(dir, Formats) <=> Loads(Only((Names \ (Bodies \cup {Rendered, "notes.txt"})) \cup {b}), Formats)
  /\ Loads(dir, Formats) => \A f \in Names \ DOMAIN dir : f \notin Bodies =>
       Loads((f :> FileOf(IF f \in {Input, Expect} THEN "doc" ELSE "text")) @@ dir, Formats)
  /\ LET i == CaseInput(dir, "\"n\"") IN
     (Has(dir, Input) => dir[Input].kind = "doc") =>
     /\ i.ds.name = "\"n\""
     /\ \A c \in Scripts : Has(dir, ScriptOf[c]) => Has(i, c)
     /\ SameBut(i, i, "ds", TRUE)
     /\ SameBut(CaseInput(dir, "\"m\""), i, "ds", TRUE) /\ ~SameBut(CaseInput(dir, "\"m\""), i, "ds", FALSE)
Emit == PrintT("SCN " \o ToJson([files |-> [f \in DOMAIN dir |-> dir[f].kind]]))
===========================================================================
