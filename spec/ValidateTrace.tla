--------------------------- MODULE ValidateTrace --------------------------
(* Conformance of recorded validations of bodies.                           *)
EXTENDS Validate, TraceBase
VARIABLES sch, body
vars == <<sch, body, l>>
None == [fault |-> FALSE, some |-> <<>>, n |-> 0]
Init == sch = <<>> /\ body = None /\ l = 1
TBegin == Is("begin") /\ sch' = <<E.schema>> /\ body' = None
TBody == Is("body") /\ body' = [fault |-> E.fault, some |-> E.some, n |-> E.n]
         /\ Len(E.some) <= E.n
         \* entries not listed are like the first of "rest", which is valid
         /\ (Len(E.some) < E.n => EntryErrors(sch[1], [at |-> 0, key |-> E.restkey, val |-> E.rest]) = <<>>)
         /\ UNCHANGED sch
\* an error of the reader is an error, and gives no list
TResult == /\ Is("result") /\ UNCHANGED <<sch, body>>
           /\ IF body.fault THEN E.res = "err" /\ E.paths = <<>>
              ELSE E.res = "ok" /\ SameBag(E.paths, BodyErrors(sch[1], body.some))
\* n entries that are all the same value; errors below each, while they are
\* the same for all entries
TFlood == /\ Is("flood") /\ UNCHANGED <<sch, body>> /\ E.res = "ok"
          /\ LET errs == Errors(E.val, sch[1].each[1], "")
             IN E.same /\ SameBag(E.sub, errs) /\ E.count = E.n * Len(errs)
\* a reader without a usable schema can not be validated
TNoSchema == Is("noschema") /\ E.res = "err" /\ UNCHANGED <<sch, body>>
Next == TBegin \/ TBody \/ TResult \/ TFlood \/ TNoSchema
Spec == Init /\ [][Next]_vars
===========================================================================
