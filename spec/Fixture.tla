------------------------------ MODULE Fixture -----------------------------
(* Test cases kept in directories of files, and what documents are compared *)
(* by. A directory is a record of files by name; a file is                  *)
(* [kind, text, doc]: "text" with its content, "doc" when that is the JSON  *)
(* of a document, or "dir" when there is a directory in its place.          *)
EXTENDS Doc

Input == "input.dataset.json"
Expect == "expect.dataset.json"
Rendered == "rendered.html"
ScriptOf == [transform |-> "transform.star", viz |-> "template.html", readme |-> "readme.md"]
Scripts == DOMAIN ScriptOf

RECURSIVE FirstIn(_, _)
FirstIn(d, names) == IF names = <<>> THEN "" ELSE IF Has(d, Head(names)) THEN Head(names) ELSE FirstIn(d, Tail(names))
BodyNames(formats) == [i \in 1..Len(formats) |-> "body." \o formats[i]]
\* the body of a test case is that of the first format there is one of
BodyOf(d, formats) == FirstIn(d, BodyNames(formats))

Readable(d, f) == Has(d, f) => d[f].kind # "dir"
IsDoc(d, f)    == Has(d, f) => d[f].kind = "doc"
\* files a test case is made of
Used(d, formats) == DOMAIN d \cap ({Input, Expect, BodyOf(d, formats)} \cup {ScriptOf[c] : c \in Scripts})
Loads(d, formats) ==
  /\ IsDoc(d, Input) /\ IsDoc(d, Expect)
  /\ Readable(d, BodyOf(d, formats)) /\ \A c \in Scripts : Readable(d, ScriptOf[c])
  /\ Used(d, formats) # {}

\* the document of a test case is called like the directory, and has a
\* component for every script
Named(t, name) == IF name = "\"\"" THEN Without(t, {"name"}) ELSE [name |-> name] @@ t
CaseInput(d, name) ==
  LET doc == IF Has(d, Input) THEN d[Input].doc ELSE [ds |-> Nothing]
      new == {c \in Scripts : Has(d, ScriptOf[c]) /\ ~Has(doc, c)}
  IN [c \in DOMAIN doc \cup new |-> IF c = "ds" THEN Named(doc.ds, name) ELSE IF c \in new THEN Nothing ELSE doc[c]]
File(d, f, shown) == IF Has(d, f) THEN [has |-> TRUE, name |-> shown, text |-> d[f].text] ELSE [has |-> FALSE, name |-> "", text |-> ""]

--------------------------------------------------------------------------
(* Comparison is of all that assignment takes over, but for additional      *)
(* metadata; nothing at all is like an empty document.                      *)
Plain(d) == [c \in DOMAIN d |-> IF c = "meta" THEN Without(d[c], {"meta"}) ELSE d[c]]
Compared(d, c, drop) ==
  LET t == IF c = "ds" THEN Plain(Assign([ds |-> Nothing], d))
           ELSE (c :> (IF Has(d, c) THEN Plain(d)[c] ELSE Nothing))
  IN IF drop THEN DropTransient(t, c) ELSE t
SameBut(a, b, c, drop) == Compared(a, c, drop) = Compared(b, c, drop)
===========================================================================
