------------------------------- MODULE Views ------------------------------
(* Views of a dataset: previews, and visualisations rendered from           *)
(* templates.  A view reads files of the dataset and puts them back.        *)
EXTENDS Body, Integers, SequencesExt, FiniteSetsExt, TLC

PreviewEntries == 100
PreviewBytes == 997
Dots == <<46, 46, 46>>
\* the bytes of a readme as a preview shows them
ReadmeText(bytes) == IF Len(bytes) < PreviewBytes THEN bytes ELSE SubSeq(bytes, 1, PreviewBytes) \o Dots

\* a size of hi * 2^20 + lo bytes, in words
Words(n, unit) == ToString(n) \o " " \o unit \o (IF n = 1 THEN "" ELSE "s")
FileSize(hi, lo) ==
  IF hi >= 1073741824 THEN Words(hi \div 1073741824, "PB")
  ELSE IF hi >= 1048576 THEN Words(hi \div 1048576, "TB")
  ELSE IF hi >= 1024 THEN Words(hi \div 1024, "GB")
  ELSE IF hi >= 1 THEN Words(hi, "MB")
  ELSE IF lo >= 1024 THEN Words(lo \div 1024, "KB")
  ELSE Words(lo, "byte")

\* the type a template sees of a value, by its first token
TypeOf(t) ==
  CASE t.k = "s" -> "string" [] t.k = "[" -> "array" [] t.k = "{" -> "object"
    [] t.k = "b" -> "boolean" [] t.k \in {"i", "f", "u"} -> "number" [] OTHER -> "other"
TypeNames == {"string", "object", "array", "boolean", "number"}

\* the entries a template asks for; all when either number is negative
Asked(n, offset, limit) == IF offset < 0 \/ limit < 0 THEN <<0, n>> ELSE Window(n, limit, offset)
\* whether reading them gets past entry n, after which the body is damaged
Beyond(n, offset, limit) == offset < 0 \/ limit < 0 \/ (limit > 0 /\ offset + limit > n)
==========================================================================
