------------------------------- MODULE Body ------------------------------
(* A dataset body: written entry by entry by a writer, read back entry by   *)
(* entry by a reader, possibly after damage or through a window.            *)
EXTENDS Val, FiniteSets

VARIABLES
  cfg,   \* fmt, tlt (array|object), comp, types of columns
  doc,   \* entries the writer accepted, in order
  wst,   \* writer: none, open, closed, failed
  full   \* the stored bytes are exactly what the writer produced
bodyVars == <<cfg, doc, wst, full>>

Tabular(c) == c.fmt \in {"csv", "xlsx"}

Class(c) == CASE c.fmt = "json" -> "json" [] c.fmt = "cbor" -> "cbor" [] OTHER -> "float"

Keys == {doc[i].key : i \in 1..Len(doc)}

\* Entries a writer must accept, and ones it must reject. CBOR encodes when it
\* is closed, so it can only reject by key.
Acceptable(c, e) ==
  /\ c.tlt = "object" => e.key # "" /\ e.key \notin Keys
  /\ c.fmt \in {"json", "ndjson"} =>
        \A i \in 1..Len(e.v) : ~Unencodable(e.v[i]) /\ ~NonFinite(e.v[i])
  /\ Tabular(c) => e.row /\ \A i \in 1..Len(e.v) : ~Unencodable(e.v[i])

Begin(c) == cfg' = c /\ doc' = <<>> /\ wst' = "open" /\ full' = TRUE

Write(e)  == wst = "open" /\ Acceptable(cfg, e) /\ doc' = Append(doc, e)
             /\ UNCHANGED <<cfg, wst, full>>
Reject(e) == wst = "open" /\ ~Acceptable(cfg, e) /\ UNCHANGED bodyVars
CloseW    == wst = "open" /\ wst' = "closed" /\ UNCHANGED <<cfg, doc, full>>
\* a fault of the store underneath is always reported to the user
WFail     == wst = "open" /\ wst' = "failed" /\ UNCHANGED <<cfg, doc, full>>

Cells(c, w, r) ==
  IF Tabular(c)
  THEN Len(w) = Len(r) /\ \A i \in 1..Len(w) : ValueReads(CellClass(c.types[i]), w[i], r[i])
  ELSE Len(w) = 1 /\ Len(r) = 1 /\ ValueReads(Class(c), w[1], r[1])

\* position a reader of format c gives to the n-th entry
Index(c, n) == IF c.fmt = "csv" \/ c.tlt = "object" THEN 0 ELSE n - 1

EntryReads(c, w, r, n) == r.key = w.key /\ r.idx = Index(c, n) /\ Cells(c, w.v, r.v)

\* CBOR stores objects with keys in canonical order, other formats keep order
Unordered(c) == c.fmt = "cbor" /\ c.tlt = "object"

\* entries as a set, of what w is expected to read as, and of what was read
Expected(c, d) == {<<d[i].key, [j \in 1..Len(d[i].v[1]) |-> Reads(Class(c), d[i].v[1][j])]>> : i \in 1..Len(d)}
Received(es)   == {<<es[i].key, [j \in 1..Len(es[i].v[1]) |-> Got(es[i].v[1][j])]>> : i \in 1..Len(es)}

ByKey(es) == [k \in {es[i].key : i \in 1..Len(es)} |-> es[CHOOSE i \in 1..Len(es) : es[i].key = k]]

\* es are entries n0+1, n0+2, ... of document d
ReadsFrom(c, d, n0, es) ==
  \A i \in 1..Len(es) : n0 + i <= Len(d) /\ EntryReads(c, d[n0 + i], es[i], n0 + i)

\* es is the whole document
ReadsAll(c, d, es) ==
  IF Unordered(c)
  THEN Len(es) = Len(d) /\ Expected(c, d) = Received(es)
  ELSE Len(es) = Len(d) /\ ReadsFrom(c, d, 0, es)

\* a window of the document
Min2(a, b) == IF a < b THEN a ELSE b
Window(n, limit, offset) == IF offset >= n THEN <<0, 0>> ELSE <<offset, Min2(limit, n - offset)>>
ReadsWindow(c, d, limit, offset, es) ==
  LET w == Window(Len(d), limit, offset) IN Len(es) = w[2] /\ ReadsFrom(c, d, w[1], es)

\* Reading a complete body gives all of it, and then the end of data
ReadComplete(es, res) == wst = "closed" /\ full /\ res = "eof" /\ ReadsAll(cfg, doc, es)

\* Self delimiting formats end in something that is never part of an entry
SelfDelimiting(c) == c.fmt \in {"json", "cbor"}

\* A JSON body may end within its last value: a number that ends with the data
\* is taken as it is, and a value that isn't there as null.
CutValue(c, e) == c.fmt = "json" /\ e.v[1][1].k \in {"i", "f", "n"}

\* Reading the first part of a body. The reader must end in an error, unless
\* damage is past all of the data; entries it gave before are the document's,
\* but for the last of a JSON body, which the damage may have cut.
ReadTruncated(es, res) ==
  /\ wst = "closed"
  /\ res \in {"err", "openerr"} \/ (res = "eof" /\ cfg.comp # "" /\ ReadsAll(cfg, doc, es))
  /\ IF Unordered(cfg) THEN Received(es) \subseteq Expected(cfg, doc)
     ELSE LET n == Len(es)  m == IF n > 0 /\ CutValue(cfg, es[n]) THEN n - 1 ELSE n IN
          m <= Len(doc) /\ ReadsFrom(cfg, doc, 0, SubSeq(es, 1, m))
==========================================================================
