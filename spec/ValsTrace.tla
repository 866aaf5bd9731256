----------------------------- MODULE ValsTrace ----------------------------
(* Conformance of recorded parsing, comparing and conversion of values.     *)
EXTENDS Vals, Val, TraceBase, FiniteSets
vars == <<l>>
Init == l = 1
TBegin == Is("begin")
\* the digits of an integer, as it is printed
CanonInt(s) == LET u == StripLeft(Unsigned(s))
               IN IF u = <<>> THEN <<"0">> ELSE IF Head1(s) = "-" THEN <<"-">> \o u ELSE u
\* doubles keep 15 digits
Exact(d) == Len(d.ds) <= 15 /\ d.e < 300 /\ d.e > 0 - 300
TText ==
  /\ Is("text")
  /\ E.type = TypeOfText(E.t, E.w)
  /\ E.isint = (IsIntegerText(E.t))
  /\ E.isfloat = (NumParts(E.t).ok /\ Head1(E.t) # ".")
  /\ E.isbool = (E.w \in TypeBools)
  /\ E.str.res = "ok" /\ E.str.text = E.w /\ E.str.back = E.w
  /\ E.int.res = IF IsIntegerText(E.t) /\ Fits(E.t) THEN "ok" ELSE "err"
  /\ E.int.res = "ok" => E.int.t = CanonInt(E.t) /\ E.int.back = CanonInt(E.t)
  /\ E.num.res = IF IsNumberText(E.t) THEN "ok" ELSE "err"
  /\ E.num.res = "ok" /\ Exact(Decimal(NumParts(E.t))) =>
       /\ Decimal(NumParts(E.num.t)) = Decimal(NumParts(E.t))
       /\ Decimal(NumParts(E.num.back)) = Decimal(NumParts(E.t))
  /\ E.num.res = "ok" => E.num.again
  /\ E.bool.res = IF E.w \in Trues \cup Falses THEN "ok" ELSE "err"
  /\ E.bool.res = "ok" => E.bool.back = IF E.w \in Trues THEN "true" ELSE "false"
  /\ E.null = "err" /\ E.unknown = "err"
TCompare ==
  /\ Is("compare")
  /\ IF Comparable(E.a, E.b, E.type) THEN E.res = "ok" /\ E.cmp = Compare(E.a, E.b, E.ca, E.cb, E.type)
     ELSE E.res = "err"
  \* the two functions without a type refuse missing texts
  /\ E.type \in {"integer", "number"} =>
       E.direct = IF ~Missing(E.a, E.b) /\ Comparable(E.a, E.b, E.type) THEN E.cmp ELSE 9
TName ==
  /\ Is("name")
  /\ E.print = IF E.name \in Names THEN E.name ELSE ""
  /\ E.res = IF E.name \in Names THEN "ok" ELSE "err"
  /\ E.res = "ok" => E.back = E.name /\ E.json = E.name
TJson ==
  /\ Is("json")
  /\ E.res = IF E.bad THEN "err" ELSE "ok"
  /\ ~E.bad => ValueReads("json", E.sent, E.got) /\ ValueReads("json", E.sent, E.back)
\* parsing text of an array or object as a type; values in it are JSON
TParse ==
  /\ Is("parse")
  /\ E.res = IF E.bad \/ E.sent[1].k \notin {"[", "{"} THEN "err" ELSE "ok"
  /\ E.res = "ok" => ValueReads("float", E.sent, E.got) /\ ValueReads("float", E.sent, E.back)
TConvert ==
  /\ Is("convert")
  /\ E.res = IF E.bad THEN "err" ELSE "ok"
  /\ ~E.bad => ValueReads("cbor", E.sent, E.got)
TEqual == /\ Is("equal")
          /\ E.res = "ok" /\ E.same = (E.a = E.b)
TAnswers == /\ Is("answers")
            /\ {E.answers[i] : i \in 1..Len(E.answers)} = Answers(E.type)
            /\ E.wrong = <<>>
Next == TBegin \/ TText \/ TCompare \/ TName \/ TJson \/ TParse \/ TConvert \/ TEqual \/ TAnswers
Spec == Init /\ [][Next]_vars
===========================================================================
