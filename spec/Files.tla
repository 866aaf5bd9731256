------------------------------- MODULE Files ------------------------------
(* Files of a dataset: its body, and the scripts and renderings of readmes, *)
(* visualisations and transforms.  A component holds its content inline, as *)
(* text, or by path; opening gives a file to read it from.  A world holds   *)
(* components (cs) and all files there ever were (fs); components refer to  *)
(* files by number, 0 for none. Reading a file uses it up. A store maps     *)
(* paths to content; a path may fail to open, or to read.                   *)
EXTENDS Naturals, Sequences
NoFile == 0
\* "text" is there when hasText; "inl" marks a body held as values
Comp == [text : STRING, hasText : BOOLEAN, inl : BOOLEAN, path : STRING, rpath : STRING, file : Nat, rfile : Nat]
NewFile(name, data, fault) == [name |-> name, data |-> data, fault |-> fault, used |-> FALSE]
AddFile(w, f) == [w EXCEPT !.fs = Append(@, f)]
Outcome(w, res, calls) == [w |-> w, res |-> res, calls |-> calls]

MemName(kind, c) == CASE kind = "body" -> (IF c.path = "" THEN "body" ELSE c.path)
                      [] kind = "readme" -> "readme.md" [] kind = "viz" -> "template.html" [] kind = "transform" -> "transform.star"

\* get path p of a store as file or rendering of component i. Where that
\* fails, an earlier file may be kept or given up.
Fetch(w, i, p, store, rendered) ==
  LET s == store[p]
      n == Len(w.fs) + 1
      put(x, k) == IF rendered THEN [x EXCEPT !.cs[i].rfile = k] ELSE [x EXCEPT !.cs[i].file = k]
  IN IF s.get = "err" THEN {Outcome(w, "err", <<p>>), Outcome(put(w, NoFile), "err", <<p>>)}
     ELSE {Outcome(put(AddFile(w, NewFile(p, s.data, s.fault)), n), "ok", <<p>>)}

Open(kind, w, i, store, resolver) ==
  LET c == w.cs[i]
      n == Len(w.fs) + 1
  IN CASE c.inl -> {Outcome(w, "inline", <<>>)}
       [] ~c.inl /\ c.hasText -> {Outcome([AddFile(w, NewFile(MemName(kind, c), c.text, FALSE)) EXCEPT !.cs[i].file = n], "ok", <<>>)}
       [] ~c.inl /\ ~c.hasText /\ c.path = "" -> {Outcome(w, "ok", <<>>)}
       [] ~c.inl /\ ~c.hasText /\ c.path # "" /\ ~resolver -> {Outcome(w, "noresolver", <<>>)}
       [] OTHER -> Fetch(w, i, c.path, store, FALSE)

OpenRendered(w, i, store, resolver) ==
  LET c == w.cs[i]
  IN IF c.rpath = "" THEN {Outcome(w, "ok", <<>>)}
     ELSE IF ~resolver THEN {Outcome(w, "noresolver", <<>>)}
     ELSE Fetch(w, i, c.rpath, store, TRUE)

\* what is left to read of file k, and whether reading it ends well
Content(w, k) == IF w.fs[k].used THEN "" ELSE w.fs[k].data
ReadRes(w, k) == IF w.fs[k].fault THEN "err" ELSE "ok"
Use(w, k) == [w EXCEPT !.fs[k].used = TRUE]

\* move the content of a script into its text
InlineFrom(o, i) ==
  LET k == o.w.cs[i].file
  IN IF o.res # "ok" \/ k = NoFile THEN o
     ELSE IF ReadRes(o.w, k) = "err" THEN Outcome(Use(o.w, k), "err", o.calls)
     ELSE LET t == Content(o.w, k)
          IN Outcome([Use(o.w, k) EXCEPT !.cs[i].text = t, !.cs[i].hasText = (t # ""), !.cs[i].path = ""], "ok", o.calls)
Inline(kind, w, i, store, resolver) ==
  IF ~resolver THEN {Outcome(w, "ok", <<>>)} ELSE {InlineFrom(o, i) : o \in Open(kind, w, i, store, resolver)}

\* merging takes what is set in the source, files as well
Pick(a, b, none) == IF b # none THEN b ELSE a
MergeFiles(w, i, j) ==
  LET c == w.cs[i] d == w.cs[j]
  IN [w EXCEPT !.cs[i] = [text |-> IF d.hasText THEN d.text ELSE c.text, hasText |-> c.hasText \/ d.hasText, inl |-> c.inl \/ d.inl,
                          path |-> Pick(c.path, d.path, ""), rpath |-> Pick(c.rpath, d.rpath, ""),
                          file |-> Pick(c.file, d.file, NoFile), rfile |-> Pick(c.rfile, d.rfile, NoFile)]]
===========================================================================
