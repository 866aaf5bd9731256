---------------------------- MODULE FixtureTrace --------------------------
(* Conformance of recorded test cases and comparisons to Fixture.           *)
EXTENDS Fixture, TraceBase
VARIABLES dirs,  \* directories of the session, by name
          golden \* the document in the golden file
vars == <<dirs, golden, l>>
Init == dirs = <<>> /\ golden = <<>> /\ l = 1
TBegin == Is("begin") /\ dirs' = <<>> /\ golden' = <<>>

In(n) == IF Has(dirs, n) THEN dirs[n] ELSE <<>>
TPut == Is("put") /\ dirs' = (E.d :> ((E.f :> [kind |-> E.kind, text |-> E.text, doc |-> E.doc]) @@ In(E.d))) @@ dirs /\ UNCHANGED golden
TDel == Is("del") /\ dirs' = (E.d :> Without(In(E.d), {E.f})) @@ dirs /\ UNCHANGED golden

TLoad ==
  /\ Is("load") /\ UNCHANGED <<dirs, golden>>
  /\ LET d == In(E.d) IN
     IF ~Loads(d, E.formats) THEN E.res = "err"
     ELSE LET b == BodyOf(d, E.formats) IN
          /\ E.res = "ok" /\ E.named
          /\ E.input = CaseInput(d, E.name)
          /\ E.expect = (IF Has(d, Expect) THEN <<d[Expect].doc>> ELSE <<>>)
          /\ E.body = (IF b = "" THEN [has |-> TRUE, name |-> "", text |-> ""] ELSE File(d, b, b))
          /\ E.inbody = File(d, b, "/" \o b)
          /\ \A c \in Scripts : /\ E.scripts[c] = File(d, ScriptOf[c], ScriptOf[c])
                                /\ E.inscripts[c] = File(d, ScriptOf[c], ScriptOf[c])
TRendered == /\ Is("rendered") /\ UNCHANGED <<dirs, golden>>
             /\ LET d == In(E.d) IN IF Has(d, Rendered) THEN E.res = "ok" /\ (d[Rendered].kind # "dir" => E.text = d[Rendered].text) ELSE E.res = "err"
TPath == /\ Is("bodypath") /\ UNCHANGED <<dirs, golden>>
         /\ LET b == BodyOf(In(E.d), E.formats) IN E.res = (IF b = "" THEN "none" ELSE "ok") /\ E.name = b
\* all directories that hold a test case are loaded, others skipped
TCases == /\ Is("cases") /\ UNCHANGED <<dirs, golden>> /\ E.res = "ok"
          /\ {E.names[i] : i \in 1..Len(E.names)} = {n \in DOMAIN dirs : Loads(dirs[n], E.formats)}
TNone == Is("none") /\ UNCHANGED <<dirs, golden>> /\ E.res = "err"

TCompare == /\ Is("compare") /\ UNCHANGED <<dirs, golden>> /\ E.kept
            /\ E.same = SameBut(E.a, E.b, E.c, E.drop)
\* a checksum is of what is encoded
TChecksum == /\ Is("checksum") /\ UNCHANGED <<dirs, golden>> /\ E.kept /\ E.again
             /\ Plain(E.a) = Plain(E.b) => E.same
             /\ (E.sure /\ Plain(E.a) # Plain(E.b)) => ~E.same
TGolden == Is("golden") /\ golden' = E.doc /\ UNCHANGED dirs
\* comparing with the golden file fails when they differ; it is only
\* written when they do, and that is asked for
TGoldenCompare ==
  /\ Is("goldencompare") /\ UNCHANGED dirs
  /\ LET same == SameBut(golden, E.got, "ds", FALSE) IN
     /\ E.passed = same
     /\ golden' = IF ~same /\ E.update THEN E.coded ELSE golden
     /\ E.now = golden'
TTemplate == Is("template") /\ UNCHANGED <<dirs, golden>> /\ E.passed = E.valid /\ (E.valid => E.text = E.want)
Next == TBegin \/ TPut \/ TDel \/ TLoad \/ TRendered \/ TPath \/ TCases \/ TNone \/ TCompare \/ TChecksum \/ TGolden \/ TGoldenCompare \/ TTemplate
Spec == Init /\ [][Next]_vars
===========================================================================
