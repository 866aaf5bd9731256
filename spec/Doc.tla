------------------------------- MODULE Doc -------------------------------
(* Dataset documents.  A document is a record of components; "ds" is always *)
(* there and holds the fields of the dataset itself. A component is a       *)
(* record of those fields that are set, by the name they have in JSON; the  *)
(* value of a field is its JSON text, but for fields that are maps merged   *)
(* key by key, which are records of JSON texts.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Components == {"commit", "meta", "readme", "structure", "stats", "transform", "viz"}
Nothing == <<>>
Without(t, S) == [f \in DOMAIN t \ S |-> t[f]]
Has(r, k) == k \in DOMAIN r

Kind(c) == CASE c = "ds" -> "\"ds:0\"" [] c = "commit" -> "\"cm:0\"" [] c = "meta" -> "\"md:0\""
             [] c = "readme" -> "\"rm:0\"" [] c = "structure" -> "\"st:0\"" [] c = "stats" -> "\"sa:0\""
             [] c = "transform" -> "\"tf:0\"" [] c = "viz" -> "\"vz:0\""

--------------------------------------------------------------------------
(* Merging.  Fields set in the source win, but for the id of a dataset; the *)
(* kind and number of versions of a dataset stay.                           *)
MergedMaps(c) == IF c = "transform" THEN {"config", "resources", "secrets"} ELSE {}
AssignComp(c, t, s) ==
  [f \in DOMAIN t \cup DOMAIN s |->
     IF ~Has(s, f) THEN t[f] ELSE IF ~Has(t, f) THEN s[f]
     ELSE IF f \in MergedMaps(c) THEN s[f] @@ t[f] ELSE s[f]]
AssignDs(t, s) == Without(s, {"qri", "numVersions"} \cup (IF Has(t, "id") THEN {"id"} ELSE {})) @@ t
Assign(d, s) ==
  [c \in DOMAIN d \cup DOMAIN s |->
     IF c = "ds" THEN AssignDs(d.ds, s.ds)
     ELSE IF ~Has(s, c) THEN d[c]
     ELSE AssignComp(c, IF Has(d, c) THEN d[c] ELSE Nothing, s[c])]

--------------------------------------------------------------------------
(* Values that are not part of a stored document, and ones made on saving.  *)
Transient(c) == CASE c = "ds" -> {"body", "bodyBytes", "name", "peername", "path", "profileID", "numVersions"}
                  [] c = "transform" -> {"path", "secrets", "text"}
                  [] c \in {"readme", "viz"} -> {"path", "text"}
                  [] OTHER -> {"path"}
Derived(c) == CASE c = "structure" -> {"checksum", "depth", "errCount", "entries", "length", "path", "qri"}
                [] OTHER -> {"path", "qri"}
DropTransient(d, c) == [d EXCEPT ![c] = Without(@, Transient(c))]
\* for the dataset, derived values of all components are dropped
DropDerived(d, c) ==
  IF c = "ds" THEN [x \in DOMAIN d |-> Without(d[x], Derived(x))]
  ELSE [d EXCEPT ![c] = Without(@, Derived(c))]

--------------------------------------------------------------------------
(* Encoding.  A component of which only the location is known is encoded as *)
(* a reference. Secrets are never encoded.                                  *)
EmptyComp(t) == DOMAIN t \subseteq {"path", "qri"}
EmptyDoc(d) == DOMAIN d = {"ds"} /\ EmptyComp(d.ds)

OmittedEmpty(c) == CASE c = "ds" -> {"bodyBytes"} [] c = "structure" -> {"schema", "formatConfig"}
                     [] c = "transform" -> {"config", "resources", "steps", "syntaxes"} [] OTHER -> {}
IsMapField(c, f) == f \in MergedMaps(c) \cup {"meta"}
EmptyContainer(c, f, v) == IF IsMapField(c, f) THEN DOMAIN v = {} ELSE v \in {"[]", "{}", "\"\""}
Encoded(c, t) ==
  LET drop == {f \in DOMAIN t \cap OmittedEmpty(c) : EmptyContainer(c, f, t[f])}
              \cup (IF c = "transform" THEN {"secrets"} ELSE {})
      u == Without(t, drop)
  IN IF c = "meta" THEN [qri |-> Kind(c)] @@ u ELSE u @@ [qri |-> Kind(c)]
Ref(p) == [ref |-> p, f |-> Nothing]
Obj(f) == [ref |-> "", f |-> f]
EncodeObject(c, t) == Obj(Encoded(c, t))
EncodeComp(c, t) == IF Has(t, "path") /\ EmptyComp(t) THEN Ref(t.path) ELSE EncodeObject(c, t)
EncodeDoc(d) ==
  IF EmptyDoc(d) /\ Has(d.ds, "path") THEN [ds |-> Ref(d.ds.path)]
  ELSE [c \in DOMAIN d |-> IF c = "ds" THEN EncodeObject("ds", d.ds) ELSE EncodeComp(c, d[c])]

\* fields every encoding has, set or not
Blank(f, v) == v = "null" \/ (f \in {"title", "format"} /\ v = "\"\"") \/ (f = "timestamp" /\ v = "\"0001-01-01T00:00:00Z\"")
Set(f) == [x \in {y \in DOMAIN f : y = "meta" \/ y \in MergedMaps("transform") \/ ~Blank(y, f[y])} |-> f[x]]
Written(w) == [ref |-> w.ref, f |-> Set(w.f)]
WrittenDoc(ws) == [c \in DOMAIN ws |-> Written(ws[c])]

DecodeComp(c, w) ==
  IF w.ref # "" THEN [path |-> w.ref]
  ELSE LET f == Without(Set(w.f), {"unknown"}) IN IF c \in {"readme", "viz"} THEN f @@ [qri |-> Kind(c)] ELSE f
DecodeDoc(ws) == [c \in DOMAIN ws |-> DecodeComp(c, ws[c])]

\* a component of which only the location is known
RefTo(c, p) == (IF p = "\"\"" THEN Nothing ELSE [path |-> p]) @@ (IF c = "structure" THEN [qri |-> Kind(c)] ELSE Nothing)

\* people, licenses and citations read from loose values, of the kinds
\* "string", "null" and "other"
TypedFields(kind) == CASE kind = "user" -> {"id", "name", "email"} [] kind = "license" -> {"type", "url"}
                       [] kind = "citation" -> {"name", "url", "email"}
TypedOk(kind, v) == \A f \in TypedFields(kind) \cap DOMAIN v : v[f].k # "other"
Typed(kind, v) == LET S == {f \in TypedFields(kind) \cap DOMAIN v : v[f].k = "string" /\ v[f].v # "\"\""} IN [f \in S |-> v[f].v]

--------------------------------------------------------------------------
(* What a signature is made of                                              *)
Value(r, f) == IF Has(r, f) THEN r[f] ELSE "\"\""
Line(d, c, prefix) == IF Has(d, c) /\ Has(d[c], "path") THEN <<<<prefix, d[c].path>>>> ELSE <<>>
SigningLines(d, tsec) ==
  (IF Has(d.ds, "id") THEN <<<<"id", d.ds.id>>>> ELSE <<>>)
  \o (IF Has(d.ds, "bodyPath") THEN <<<<"bd", d.ds.bodyPath>>>> ELSE <<>>)
  \o (IF Has(d, "commit") /\ Has(d.commit, "timestamp") THEN <<<<"cm", tsec>>>> ELSE <<>>)
  \o Line(d, "meta", "md") \o Line(d, "readme", "rm") \o Line(d, "structure", "st")
  \o Line(d, "transform", "tf") \o Line(d, "stats", "sa") \o Line(d, "viz", "vz")

\* what older versions signed
CanSignOld(d) == Has(d, "commit") /\ Has(d, "structure")

PathKeys(d) == (IF Has(d.ds, "bodyPath") THEN {"body"} ELSE {}) \cup (IF Has(d.ds, "path") THEN {"dataset"} ELSE {})
               \cup (DOMAIN d \ {"ds"})
PathMap(d, ignore) ==
  [k \in PathKeys(d) \ ignore |->
     CASE k = "body" -> d.ds.bodyPath [] k = "dataset" -> d.ds.path [] OTHER -> Value(d[k], "path")]

\* equal but for the location
ShallowSame(d, e, c) ==
  IF ~Has(d, c) \/ ~Has(e, c) THEN Has(d, c) = Has(e, c)
  ELSE Without(d[c], {"path"}) = Without(e[c], {"path"})
==========================================================================
