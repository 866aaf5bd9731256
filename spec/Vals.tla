-------------------------------- MODULE Vals ------------------------------
(* Types of values and their texts. A text is a sequence of characters,     *)
(* each a string of length one; a number is a decimal: 0.d1d2d3.. * 10^e    *)
(* with a sign.                                                             *)
EXTENDS Naturals, Integers, Sequences

DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : DigitSeq[i] = c
DigitVal(c) == (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1
Rest(s, n) == SubSeq(s, n + 1, Len(s))
Head1(s) == IF s = <<>> THEN "" ELSE s[1]
\* how many digits s starts with
Run(s) == IF \A i \in 1..Len(s) : IsDigit(s[i]) THEN Len(s)
          ELSE (CHOOSE i \in 1..Len(s) : ~IsDigit(s[i]) /\ \A j \in 1..(i - 1) : IsDigit(s[j])) - 1
RECURSIVE NatOf(_)
NatOf(s) == IF s = <<>> THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal(s[Len(s)])

\* ---- numbers: sign, digits, point, digits, exponent
Signed(s) == Head1(s) \in {"-", "+"}
Unsigned(s) == IF Signed(s) THEN Rest(s, 1) ELSE s
NotNumber == [ok |-> FALSE, neg |-> FALSE, ip |-> <<>>, fp |-> <<>>, ex |-> 0]
NumParts(s) ==
  LET u == Unsigned(s)
      a == Run(u)
      r == Rest(u, a)
      b == IF Head1(r) = "." THEN Run(Rest(r, 1)) ELSE 0
      q == IF Head1(r) = "." THEN Rest(r, 1 + b) ELSE r
      e == Rest(q, 1)
      ed == Unsigned(e)
  IN IF a + b = 0 THEN NotNumber
     ELSE IF q # <<>> /\ ~(q[1] \in {"e", "E"} /\ ed # <<>> /\ Run(ed) = Len(ed)) THEN NotNumber
     ELSE [ok |-> TRUE, neg |-> Head1(s) = "-", ip |-> SubSeq(u, 1, a),
           fp |-> IF Head1(r) = "." THEN SubSeq(Rest(r, 1), 1, b) ELSE <<>>,
           ex |-> IF q = <<>> THEN 0 ELSE IF Head1(e) = "-" THEN 0 - NatOf(ed) ELSE NatOf(ed)]
RECURSIVE StripLeft(_), StripRight(_)
StripLeft(s) == IF Head1(s) = "0" THEN StripLeft(Rest(s, 1)) ELSE s
StripRight(s) == IF s # <<>> /\ s[Len(s)] = "0" THEN StripRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Zero == [neg |-> FALSE, ds |-> <<>>, e |-> 0]
Decimal(p) ==
  LET d == p.ip \o p.fp
      l == StripLeft(d)
  IN IF l = <<>> THEN Zero ELSE [neg |-> p.neg, ds |-> StripRight(l), e |-> Len(p.ip) + p.ex - (Len(d) - Len(l))]

\* -1, 0, 1 as digit sequences compare, both aligned at the point
RECURSIVE DigitsCmp(_, _)
DigitsCmp(a, b) ==
  IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN 0 - 1 ELSE IF b = <<>> THEN 1
  ELSE IF DigitVal(a[1]) # DigitVal(b[1]) THEN (IF DigitVal(a[1]) < DigitVal(b[1]) THEN 0 - 1 ELSE 1)
  ELSE DigitsCmp(Rest(a, 1), Rest(b, 1))
MagCmp(x, y) == IF x.ds = <<>> \/ y.ds = <<>> THEN DigitsCmp(x.ds, y.ds)
                ELSE IF x.e # y.e THEN (IF x.e < y.e THEN 0 - 1 ELSE 1) ELSE DigitsCmp(x.ds, y.ds)
DecCmp(x, y) == IF x.neg # y.neg THEN (IF x.neg THEN 0 - 1 ELSE 1)
                ELSE IF x.neg THEN MagCmp(y, x) ELSE MagCmp(x, y)
\* a double holds it: 0.18 * 10^309 is about the greatest
MaxDouble == [neg |-> FALSE, e |-> 309, ds |-> <<"1", "7", "9", "7", "6", "9", "3", "1", "3", "4", "8", "6", "2", "3", "1", "5", "7">>]
IsNumberText(s) == NumParts(s).ok /\ MagCmp(Decimal(NumParts(s)), MaxDouble) <= 0

\* ---- integers of 64 bits
IsIntegerText(s) == Unsigned(s) # <<>> /\ Run(Unsigned(s)) = Len(Unsigned(s))
MaxInt == [neg |-> FALSE, e |-> 19, ds |-> <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "7">>]
MinInt == [MaxInt EXCEPT !.neg = TRUE, !.ds = [@ EXCEPT ![19] = "8"]]
IntDecimal(s) == Decimal([ok |-> TRUE, neg |-> Head1(s) = "-", ip |-> Unsigned(s), fp |-> <<>>, ex |-> 0])
Fits(s) == LET d == IntDecimal(s) IN DecCmp(d, MaxInt) <= 0 /\ DecCmp(MinInt, d) <= 0

\* ---- texts of the other types. Words are one string, w is the text as one
TypeBools == {"t", "f", "T", "F", "true", "false", "TRUE", "FALSE", "True", "False"}
Trues == {"1", "t", "T", "TRUE", "true", "True"}
Falses == {"0", "f", "F", "FALSE", "false", "False"}
NumberStart == {"-", "e"} \cup {DigitSeq[i] : i \in 1..10}
\* the type of a text: a boolean, null, or by the first character that is not blank
TypeOfText(s, w) ==
  IF w \in TypeBools THEN "boolean" ELSE IF w = "null" THEN "null"
  ELSE IF \A i \in 1..Len(s) : s[i] \in {" ", "\n"} THEN "string"
  ELSE LET c == s[CHOOSE i \in 1..Len(s) : s[i] \notin {" ", "\n"} /\ \A j \in 1..(i - 1) : s[j] \in {" ", "\n"}]
       IN CASE c = "{" -> "object" [] c = "[" -> "array"
            [] c \in NumberStart -> IF ~IsNumberText(s) THEN "string" ELSE IF IsIntegerText(s) THEN "integer" ELSE "number"
            [] OTHER -> "string"

\* ---- comparing texts as values of a type; no text comes before any
Missing(a, b) == a = <<>> \/ b = <<>>
Comparable(a, b, type) ==
  \/ Missing(a, b)
  \/ type = "string"
  \/ type = "integer" /\ IsIntegerText(a) /\ Fits(a) /\ IsIntegerText(b) /\ Fits(b)
  \/ type = "number" /\ IsNumberText(a) /\ IsNumberText(b)
\* code gives the order of characters
RECURSIVE TextCmp(_, _)
TextCmp(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN 0 - 1 ELSE IF b = <<>> THEN 1
                 ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN 0 - 1 ELSE 1) ELSE TextCmp(Rest(a, 1), Rest(b, 1))
\* ca, cb: the bytes of the texts
Compare(a, b, ca, cb, type) ==
  IF Missing(a, b) THEN (IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN 0 - 1 ELSE 1)
  ELSE CASE type = "string" -> TextCmp(ca, cb)
         [] type = "integer" -> DecCmp(IntDecimal(a), IntDecimal(b))
         [] OTHER -> DecCmp(Decimal(NumParts(a)), Decimal(NumParts(b)))

\* ---- names
Names == {"null", "integer", "number", "boolean", "string", "object", "array"}

\* ---- what values of a type answer; anything else is refused
Answers(type) ==
  {"Type", "String", "IsNull"} \cup
  (CASE type = "object" -> {"Keys", "MapIndex"}
    [] type = "array" -> {"Len", "Index"}
    [] type = "integer" -> {"Integer", "Number"}
    [] type = "number" -> {"Number"}
    [] type = "boolean" -> {"Boolean"}
    [] OTHER -> {})
===========================================================================
