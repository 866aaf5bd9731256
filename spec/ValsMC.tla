------------------------------ MODULE ValsMC ------------------------------
(* Laws of texts and their order, for all texts of up to MaxLen characters. *)
(* Every text is a scenario.                                                *)
EXTENDS Vals, TLC, Json
CONSTANTS MaxLen, Chars
VARIABLES a, b
vars == <<a, b>>
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
Init == a \in Texts(MaxLen) /\ b = <<>>
\* texts short enough to be tried in pairs
Next == Len(a) < MaxLen /\ b = <<>> /\ a' = a /\ b' \in Texts(MaxLen - 1)
Spec == Init /\ [][Next]_vars
CharSeq == <<" ", "\"", "+", "-", ".", "0", "1", "2", "5", "9", "[", "e", "{">>
Codes(s) == [i \in 1..Len(s) |-> CHOOSE k \in 1..Len(CharSeq) : CharSeq[k] = s[i]]
Types == {"string", "integer", "number"}
Laws ==
  /\ IsIntegerText(a) => NumParts(a).ok /\ Decimal(NumParts(a)) = IntDecimal(a)
  /\ TypeOfText(a, "") \in Names
  /\ \A t \in Types :
       /\ Comparable(a, b, t) <=> Comparable(b, a, t)
       /\ Comparable(a, b, t) => Compare(a, b, Codes(a), Codes(b), t) = 0 - Compare(b, a, Codes(b), Codes(a), t)
  /\ Comparable(a, b, "integer") => Compare(a, b, Codes(a), Codes(b), "integer") = Compare(a, b, Codes(a), Codes(b), "number")
  \* small numbers as fractions
  /\ (a # <<>> /\ b # <<>> /\ IsNumberText(a) /\ IsNumberText(b)) =>
       LET Val(s) == LET p == NumParts(s)
                         m == NatOf(p.ip) * 100 + (IF p.fp = <<>> THEN 0 ELSE IF Len(p.fp) = 1 THEN 10 * NatOf(p.fp) ELSE NatOf(p.fp))
                     IN IF p.neg THEN 0 - m ELSE m
       IN (NumParts(a).ex = 0 /\ NumParts(b).ex = 0 /\ Len(NumParts(a).fp) <= 2 /\ Len(NumParts(b).fp) <= 2)
          => LET c == DecCmp(Decimal(NumParts(a)), Decimal(NumParts(b)))
             IN (c < 0 <=> Val(a) < Val(b)) /\ (c = 0 <=> Val(a) = Val(b))
Emit == b = <<>> => PrintT("SCN " \o ToJson([t |-> a]))
===========================================================================
