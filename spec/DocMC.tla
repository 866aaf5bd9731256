------------------------------- MODULE DocMC ------------------------------
(* Laws of Doc over all small documents, and all short histories of         *)
(* operations on two documents.                                             *)
EXTENDS Doc, Json
CONSTANTS MaxOps, Docs0
VARIABLES docs, ops, start
vars == <<docs, ops, start>>

V == {"\"1\"", "\"2\""}
Fn(S, R) == UNION {[T -> R] : T \in SUBSET S}
DsT == Fn({"id", "path", "qri", "body"}, {"\"1\""}) \cup Fn({"id", "name"}, V)
CmT == Fn({"title", "path", "qri"}, V)
TfT == {(IF "config" \in DOMAIN a THEN [a EXCEPT !.config = m] ELSE a) :
          a \in Fn({"config", "secrets", "path", "text"}, {[k |-> "1"]}), m \in {[k |-> "2"], [j |-> "1", k |-> "1"], <<>>}}
TfOk == {[f \in DOMAIN t |-> IF f \in {"path", "text"} THEN "\"1\"" ELSE t[f]] : t \in TfT}
AllDocs == {[ds |-> a] : a \in DsT} \cup {[ds |-> a, commit |-> b] : a \in Fn({"id", "path"}, V), b \in CmT}
           \cup {[ds |-> a, transform |-> b] : a \in Fn({"path"}, V), b \in TfOk}
Small == {[ds |-> a] : a \in Fn({"id", "name"}, V)} \cup {[ds |-> Nothing, commit |-> b] : b \in Fn({"title", "path"}, V)}
         \cup {[ds |-> Nothing, transform |-> b] : b \in TfOk}

\* merging: neutral element, idempotent, and in any grouping
ASSUME \A a \in AllDocs : Assign([ds |-> Nothing], Without(a, {})) = [a EXCEPT !.ds = Without(@, {"qri", "numVersions"})]
ASSUME \A a \in AllDocs : Assign(a, [ds |-> Nothing]) = a /\ Assign(a, a) = a
ASSUME \A a, b \in Small : Assign(Assign(a, b), b) = Assign(a, b)
ASSUME \A a, b, c \in Small : Assign(Assign(a, b), c) = Assign(a, Assign(b, c))
\* dropping is idempotent, and leaves nothing of the kind
ASSUME \A a \in AllDocs : \A c \in DOMAIN a :
         /\ DropTransient(DropTransient(a, c), c) = DropTransient(a, c)
         /\ DropDerived(DropDerived(a, c), c) = DropDerived(a, c)
         /\ DropTransient(DropDerived(a, c), c) = DropDerived(DropTransient(a, c), c)
\* decoding what was encoded loses nothing but secrets, empty containers, and
\* the kind of a reference; a second time nothing at all is lost
Plain(d) == [c \in DOMAIN d |-> Without(d[c], {"qri"})]
Lossless(d) == [c \in DOMAIN d |-> Without(d[c], {f \in DOMAIN d[c] :
                  f \in {"secrets", "qri"} \/ (f = "config" /\ DOMAIN d[c][f] = {})})]
ASSUME \A a \in AllDocs : LET b == DecodeDoc(EncodeDoc(a)) IN
         Plain(b) = Lossless(a) /\ Plain(DecodeDoc(EncodeDoc(b))) = Plain(b)
\* a reference is encoded as one, and comes back
ASSUME \A c \in Components \cup {"ds"} : LET t == RefTo(c, "\"p\"") IN
         EncodeComp(c, t) = Ref("\"p\"") /\ DecodeComp(c, EncodeComp(c, t)) = Without(t, {"qri"})
\* reading a loose value again changes nothing
ASSUME \A k \in {"user", "license", "citation"} :
         \A v \in Fn({"id", "name", "url", "x"}, {[k |-> "string", v |-> "\"a\""], [k |-> "null", v |-> "null"], [k |-> "other", v |-> "5"]}) :
           LET t == Typed(k, v) IN Typed(k, [f \in DOMAIN t |-> [k |-> "string", v |-> t[f]]]) = t
\* no secret is ever encoded
ASSUME \A a \in AllDocs : \A c \in DOMAIN EncodeDoc(a) : "secrets" \notin DOMAIN EncodeDoc(a)[c].f

Init == \E a, b \in Docs0 : docs = <<a, b>> /\ start = <<a, b>> /\ ops = <<>>
Op(o, ds) == Len(ops) < MaxOps /\ ops' = Append(ops, o) /\ docs' = ds /\ UNCHANGED start
Next == \E i \in 1..2 :
  \/ Op(<<"assign", i, 3 - i, "ds">>, [docs EXCEPT ![i] = Assign(@, docs[3 - i])])
  \/ Op(<<"copy", i, 3 - i, "ds">>, [docs EXCEPT ![3 - i] = DecodeDoc(EncodeDoc(docs[i]))])
  \/ Op(<<"encode", i, 0, "ds">>, docs)
  \/ Has(docs[i], "meta") /\ \E k \in {"title", "x"} : Op(<<"set", i, 0, k>>,
        [docs EXCEPT ![i].meta = IF k = "title" THEN ("title" :> "\"new\"") @@ @
                                 ELSE ("meta" :> (("x" :> "\"new\"") @@ (IF Has(@, "meta") THEN @.meta ELSE Nothing))) @@ @])
  \/ \E c \in DOMAIN docs[i] \cap {"ds", "transform", "commit"} :
        \/ Op(<<"dropt", i, 0, c>>, [docs EXCEPT ![i] = DropTransient(@, c)])
        \/ c # "commit" /\ Op(<<"dropd", i, 0, c>>, [docs EXCEPT ![i] = DropDerived(@, c)])
        \/ c # "ds" /\ Has(docs[3 - i], c) /\ Op(<<"assignc", i, 3 - i, c>>, [docs EXCEPT ![i][c] = AssignComp(c, @, docs[3 - i][c])])
Spec == Init /\ [][Next]_vars

\* the id of a dataset never changes by merging, kinds are never invented
Inv == \A i \in 1..2 : "ds" \in DOMAIN docs[i]
Scenario == (Len(ops) = MaxOps) => PrintT("SCN " \o ToJson([start |-> start, ops |-> ops]))

Start == {[ds |-> [id |-> "\"1\"", name |-> "\"n\""], meta |-> [title |-> "\"t\"", meta |-> [a |-> "\"1\""]]],
          [ds |-> [path |-> "\"p\""]],
          [ds |-> [body |-> "\"b\"", path |-> "\"p\""], meta |-> [path |-> "\"q\""],
           transform |-> [text |-> "\"s\"", config |-> [k |-> "\"1\""], secrets |-> [k |-> "\"hush\""]]],
          [ds |-> [id |-> "\"2\""], commit |-> [title |-> "\"c\""], transform |-> [path |-> "\"t\"", config |-> [j |-> "\"2\""]]]}
===========================================================================
