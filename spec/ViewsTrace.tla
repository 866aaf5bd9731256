----------------------------- MODULE ViewsTrace ---------------------------
(* Conformance of recorded previews and renderings.                         *)
EXTENDS Views, TraceBase
VARIABLE d  \* the dataset: what there is besides the body
vars == <<bodyVars, l, d>>
NoCfg == [fmt |-> "", tlt |-> "", comp |-> "", types |-> <<>>]
Init == cfg = NoCfg /\ doc = <<>> /\ wst = "none" /\ full = FALSE /\ l = 1 /\ d = <<>>
\* E.es are the entries that can be read, after which the body is damaged when
\* E.damage; names in E.d
TBegin == Is("begin") /\ cfg' = E.cfg /\ doc' = E.es /\ wst' = "closed" /\ full' = ~E.d.damage /\ d' = E.d
Same == UNCHANGED <<bodyVars, d>>

\* Entries of a preview are JSON. Integers written as text in a typed column
\* are integers again
InClass == IF Tabular(cfg) THEN "exact" ELSE Class(cfg)
EntryShows(w, r) == r.key = w.key /\ ValueReads2(InClass, "json", w.v[1], r.v[1])
BodyShows(es) ==
  /\ Len(es) = Min2(Len(doc), PreviewEntries)
  /\ IF Unordered(cfg) THEN \A i \in 1..Len(es) : \E j \in 1..Len(doc) : EntryShows(doc[j], es[i])
     ELSE \A i \in 1..Len(es) : EntryShows(doc[i], es[i])
MustFail == \/ d.nothing
            \/ d.readme /\ d.readmefault
            \/ d.body /\ ~d.structure
            \/ d.body /\ d.damage /\ Len(doc) < PreviewEntries
MayFail == d.body /\ d.damage
TPreview ==
  /\ Is("preview") /\ Same
  /\ E.res \in {"ok", "err"}
  /\ MustFail => E.res = "err"
  /\ ~MustFail /\ ~MayFail => E.res = "ok"
  /\ E.res = "ok" => /\ (d.body => E.end = "eof" /\ BodyShows(E.es) /\ E.top = cfg.tlt)
                     /\ (~d.body => E.nobody)
                     /\ (d.readme => E.readme = ReadmeText(d.text))
                     /\ E.others = d.others
\* the files of the dataset, read after any views
TFiles == /\ Is("files") /\ Same
          /\ E.body = d.files.body /\ E.readme = d.files.readme /\ E.script = d.files.script

\* a rendering: pieces of a template, and what came of each
Piece(p, g) ==
  CASE p.k = "lit" -> g = <<p.text>>
    [] p.k = "title" -> g = <<IF d.title # "" THEN d.title ELSE d.slug>>
    [] p.k = "name" -> g = <<d.name>>
    [] p.k = "size" -> g = <<FileSize(p.hi, p.lo)>>
    [] p.k = "istype" -> g = <<IF TypeOf(p.tok) = p.type THEN "true" ELSE "false">>
    [] p.k = "count" -> g = <<ToString(Asked(Len(doc), p.offset, p.limit)[2])>>
    [] p.k = "entries" -> LET w == Asked(Len(doc), p.offset, p.limit)
                          IN IF cfg.tlt = "object"
                             THEN /\ Len(g) = w[2]
                                  /\ IF Unordered(cfg) THEN {g[i] : i \in 1..Len(g)} \subseteq {doc[i].text : i \in 1..Len(doc)}
                                     ELSE {g[i] : i \in 1..Len(g)} = {doc[w[1] + i].text : i \in 1..w[2]}
                             ELSE g = [i \in 1..w[2] |-> doc[w[1] + i].text]
    [] p.k = "types" /\ cfg.tlt = "object" ->
         /\ Len(g) = Len(doc) /\ p.type \in TypeNames
         /\ Cardinality({i \in 1..Len(g) : g[i] = "true"}) = Cardinality({i \in 1..Len(doc) : TypeOf(doc[i].v[1][1]) = p.type})
         /\ \A i \in 1..Len(g) : g[i] \in {"true", "false"}
    [] p.k = "types" -> g = [i \in 1..Len(doc) |-> IF TypeOf(doc[i].v[1][1]) = p.type THEN "true" ELSE "false"]
    [] OTHER -> FALSE
Bad(p) == \/ p.k = "bad"
          \/ p.k \in {"istype"} /\ p.type \notin TypeNames
          \/ p.k = "types" /\ (p.type \notin TypeNames /\ Len(doc) > 0)
          \/ p.k \in {"entries", "count", "types"} /\ (~d.body \/ ~d.structure)
          \/ p.k = "types" /\ d.damage
          \/ p.k \in {"entries", "count"} /\ d.damage /\ Beyond(Len(doc), p.offset, p.limit)
MayBad(p) == p.k \in {"entries", "count"} /\ d.damage
Unrendered == d.nothing \/ ~d.viz \/ d.format # "html" \/ ~d.script \/ d.scriptfault
TRender ==
  /\ Is("render") /\ Same
  /\ E.res \in {"ok", "err"}
  /\ Unrendered \/ (\E i \in 1..Len(d.pieces) : Bad(d.pieces[i])) => E.res = "err"
  /\ ~Unrendered /\ (\A i \in 1..Len(d.pieces) : ~Bad(d.pieces[i]) /\ ~MayBad(d.pieces[i])) => E.res = "ok"
  /\ E.res = "ok" => /\ Len(E.got) = Len(d.pieces) /\ E.name = "index.html"
                     /\ \A i \in 1..Len(d.pieces) : Piece(d.pieces[i], E.got[i])
  /\ E.res = "err" => E.none
Next == TBegin \/ TPreview \/ TFiles \/ TRender
Spec == Init /\ [][Next]_vars
===========================================================================
