------------------------------ MODULE DocTrace ----------------------------
(* Conformance of recorded histories of documents to Doc. Every event holds *)
(* all documents as they are after it, so that a change to a document no    *)
(* operation was made on is seen.                                           *)
EXTENDS Doc, TraceBase
VARIABLES docs,  \* documents of the session
          enc    \* encodings seen: <<component, what it says, digest of bytes>>
vars == <<docs, enc, l>>

Init == docs = <<>> /\ enc = {} /\ l = 1
After(ds) == docs' = ds /\ E.docs = ds

TBegin == Is("begin") /\ docs' = E.docs /\ enc' = {}

\* assign documents js, in order, to document i
RECURSIVE AssignAll(_, _, _)
AssignAll(ds, i, js) ==
  IF js = <<>> THEN ds
  ELSE IF Head(js) = 0 THEN AssignAll(ds, i, Tail(js)) \* nothing at all
  ELSE AssignAll([ds EXCEPT ![i] = Assign(ds[i], ds[Head(js)])], i, Tail(js))
TAssign == Is("assign") /\ After(AssignAll(docs, E.i, E.js)) /\ UNCHANGED enc
\* the same for one component, which document i has
RECURSIVE AssignComps(_, _, _, _)
AssignComps(ds, i, c, js) ==
  IF js = <<>> THEN ds
  ELSE IF Head(js) = 0 \/ ~Has(ds[Head(js)], c) THEN AssignComps(ds, i, c, Tail(js))
  ELSE AssignComps([ds EXCEPT ![i][c] = AssignComp(c, @, ds[Head(js)][c])], i, c, Tail(js))
TAssignC == Is("assignc") /\ Has(docs[E.i], E.c) /\ After(AssignComps(docs, E.i, E.c, E.js)) /\ UNCHANGED enc

\* setting a field of meta
MetaStrings == [qri |-> "qri", accessurl |-> "accessURL", accrualperiodicity |-> "accrualPeriodicity",
                description |-> "description", downloadurl |-> "downloadURL", homeurl |-> "homeURL",
                identifier |-> "identifier", readmeurl |-> "readmeURL", title |-> "title", version |-> "version"]
MetaLists == {"keywords", "language", "theme"}
Put(t, f, v) == (f :> v) @@ t
Extra(t) == IF Has(t, "meta") THEN t.meta ELSE Nothing
SetMeta(t, lk, key, v, kind) ==
  CASE lk \in DOMAIN MetaStrings /\ kind \in {"string", "null"} ->
         IF v \in {"\"\"", "null"} THEN Without(t, {MetaStrings[lk]}) ELSE Put(t, MetaStrings[lk], v)
    [] lk \in MetaLists /\ kind \in {"strings", "null", "emptylist"} ->
         IF kind # "strings" THEN Without(t, {lk}) ELSE Put(t, lk, v)
    [] lk \in {"citations", "contributors"} /\ kind \in {lk, "emptylist"} -> Put(t, lk, v)
    [] lk = "license" /\ kind = "license" -> Put(t, lk, v)
    [] lk \notin DOMAIN MetaStrings \cup MetaLists \cup {"citations", "contributors", "license"} ->
         Put(t, "meta", Put(Extra(t), key, v))
    [] OTHER -> [invalid |-> "!"]
TSet == /\ Is("set") /\ UNCHANGED enc /\ Has(docs[E.i], "meta")
        /\ LET t == SetMeta(docs[E.i].meta, E.lk, E.key, E.val, E.kind)
           IN IF t = [invalid |-> "!"]
              THEN E.res = "err" /\ After(docs)
              ELSE E.res = "ok" /\ After([docs EXCEPT ![E.i].meta = t])
TSetArb == Is("setarb") /\ UNCHANGED enc /\ Has(docs[E.i], "meta") /\ E.res = "ok"
           /\ After([docs EXCEPT ![E.i].meta = Put(@, "meta", Put(Extra(@), E.key, E.val))])

TDropT == Is("dropt") /\ UNCHANGED enc /\ Has(docs[E.i], E.c) /\ After([docs EXCEPT ![E.i] = DropTransient(@, E.c)])
TDropD == Is("dropd") /\ UNCHANGED enc /\ Has(docs[E.i], E.c) /\ After([docs EXCEPT ![E.i] = DropDerived(@, E.c)])

\* Encoding gives what the document holds, and leaves it as it was. The same
\* is always encoded the same, and different things differently.
Encoding(d, c, object) ==
  IF c = "ds" THEN EncodeDoc(d)
  ELSE (c :> (IF object THEN EncodeObject(c, d[c]) ELSE EncodeComp(c, d[c])))
TEncode == /\ Is("encode") /\ E.res = "ok" /\ After(docs) /\ Has(docs[E.i], E.c)
           /\ LET w == Encoding(docs[E.i], E.c, E.object)
              IN /\ WrittenDoc(E.wire) = w
                 /\ \A x \in enc : x[1] = E.c => ((x[2] = w) <=> (x[3] = E.digest))
                 /\ enc' = enc \cup {<<E.c, w, E.digest>>}

\* decoding the encoding of a component of document i into document j
TCopy == /\ Is("copy") /\ E.res = "ok" /\ UNCHANGED enc /\ Has(docs[E.i], E.c)
         /\ LET d == DecodeDoc(Encoding(docs[E.i], E.c, E.object))
            IN After([docs EXCEPT ![E.j] = IF E.c = "ds" THEN d ELSE d @@ @])
\* decoding what other software wrote
\* and no file of what was held before is left open in its place
TDecode == /\ Is("decode") /\ E.res = "ok" /\ E.held = 0 /\ UNCHANGED enc
           /\ LET d == DecodeDoc(E.wire)
              IN After([docs EXCEPT ![E.j] = IF E.c = "ds" THEN d ELSE d @@ @])
\* what isn't a document is refused, and changes nothing
TBadDecode == Is("baddecode") /\ E.res = "err" /\ After(docs) /\ UNCHANGED enc

TEmpty == /\ Is("isempty") /\ After(docs) /\ UNCHANGED enc /\ Has(docs[E.i], E.c)
          /\ E.empty = (IF E.c = "ds" THEN EmptyDoc(docs[E.i]) ELSE EmptyComp(docs[E.i][E.c]))
TSigning == Is("signing") /\ After(docs) /\ UNCHANGED enc /\ E.lines = SigningLines(docs[E.i], E.tsec)
TPathMap == /\ Is("pathmap") /\ After(docs) /\ UNCHANGED enc
            /\ E.map = PathMap(docs[E.i], {E.ignore[k] : k \in 1..Len(E.ignore)})
TShallow == Is("shallow") /\ After(docs) /\ UNCHANGED enc /\ E.same = ShallowSame(docs[E.i], docs[E.j], E.c)
\* documents signed alike agree on what is signed, and others differ
TSignPair == Is("signpair") /\ After(docs) /\ UNCHANGED enc
             /\ E.same = (SigningLines(docs[E.i], E.tsec) = SigningLines(docs[E.j], E.tsec2))

\* what only has a location
TRef == /\ Is("ref") /\ UNCHANGED enc
        /\ LET t == RefTo(E.c, E.path) IN After([docs EXCEPT ![E.j] = IF E.c = "ds" THEN [ds |-> t] ELSE (E.c :> t) @@ @])
\* a component had from a value: the one pointed to, a copy, or none
TFrom == /\ Is("from") /\ After(docs) /\ UNCHANGED enc
         /\ E.res = (IF E.form = "other" THEN "err" ELSE "ok")
         /\ E.form # "other" => /\ E.same = (E.form = "pointer")
                               /\ IF E.c = "ds" THEN E.got = docs[E.i] ELSE Has(E.got, E.c) /\ E.got[E.c] = docs[E.i][E.c]
         /\ E.form = "other" => E.got = [ds |-> Nothing]
TTyped == /\ Is("typed") /\ After(docs) /\ UNCHANGED enc
          /\ E.res = (IF E.isobj /\ TypedOk(E.kind, E.val) THEN "ok" ELSE "err")
          /\ E.res = "ok" => E.after = Typed(E.kind, E.val)
          /\ ~E.isobj => E.after = E.before
TSignable == /\ Is("signable") /\ After(docs) /\ UNCHANGED enc
             /\ IF CanSignOld(docs[E.i])
                THEN E.res = "ok" /\ E.time = E.tsec /\ E.sum = Value(docs[E.i].structure, "checksum")
                ELSE E.res = "err" /\ E.none

Next == \/ TRef \/ TFrom \/ TTyped \/ TSignable \/ TBegin \/ TAssign \/ TAssignC \/ TSet \/ TSetArb \/ TDropT \/ TDropD \/ TEncode \/ TCopy \/ TDecode
        \/ TBadDecode \/ TEmpty \/ TSigning \/ TPathMap \/ TShallow \/ TSignPair
Spec == Init /\ [][Next]_vars
===========================================================================
