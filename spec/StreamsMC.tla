----------------------------- MODULE StreamsMC ----------------------------
(* A feed as it is built: a producer that hands entries over one by one,    *)
(* readers that wait for one, and closing, which throws away the rest. For  *)
(* all programs of threads, what an observer sees is what Streams allows,   *)
(* every operation ends, and after closing nothing is left waiting.         *)
EXTENDS Streams, TLC, Json
CONSTANTS MaxN, Threads, MaxOps
VARIABLES n, prog, at, p, got, f, ok
vars == <<n, prog, at, p, got, f, ok>>
Programs == UNION {[1..k -> {"r", "c"}] : k \in 0..MaxOps}
T == 1..Threads
Ord(a, b) == Len(a) >= Len(b)
Init == /\ n \in 0..MaxN /\ prog \in {g \in [T -> Programs] : \A t \in T : t > 1 => Ord(g[t - 1], g[t])}
        /\ at = [t \in T |-> [i |-> 1, st |-> "idle"]] /\ p = 1 /\ got = [t \in T |-> 0]
        /\ f = Feed(n, TRUE) /\ ok = TRUE
Op(t) == prog[t][at[t].i]
Id(t) == 100 * t + at[t].i
Busy(t) == at[t].i <= Len(prog[t])
Call(t) == /\ Busy(t) /\ at[t].st = "idle" /\ at' = [at EXCEPT ![t].st = "wait"]
           /\ f' = IF Op(t) = "r" THEN CallRead(f, Id(t)) ELSE CallClose(f)
           /\ UNCHANGED <<n, prog, p, got, ok>>
\* taking from the channel; once the producer is done it gives zero
Take(t) == /\ Busy(t) /\ at[t].st = "wait"
           /\ p' = IF p <= n THEN p + 1 ELSE p
           /\ IF Op(t) = "r" THEN got' = [got EXCEPT ![t] = IF p <= n THEN p ELSE 0] /\ at' = [at EXCEPT ![t].st = "ret"]
              ELSE UNCHANGED got /\ at' = IF p <= n THEN at ELSE [at EXCEPT ![t].st = "ret"]
           /\ UNCHANGED <<n, prog, f, ok>>
Ret(t) == /\ Busy(t) /\ at[t].st = "ret" /\ at' = [at EXCEPT ![t] = [i |-> at[t].i + 1, st |-> "idle"]]
          /\ LET g == IF Op(t) = "c" THEN RetClose(f) ELSE IF got[t] = 0 THEN GiveEnd(f, Id(t)) ELSE Give(f, Id(t), got[t])
             IN f' = g /\ ok' = (Sound(g) /\ (Op(t) = "r" /\ got[t] # 0 => MayGive(f, Id(t), got[t])))
          /\ UNCHANGED <<n, prog, p, got>>
Next == \E t \in T : Call(t) \/ Take(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Explained == ok
NothingWaits == (\E t \in T : \E i \in 1..(at[t].i - 1) : prog[t][i] = "c") => p > n
Done == \A t \in T : ~Busy(t)
AllEnd == <>Done
EachOnce == Done /\ (\A t \in T : \A i \in 1..Len(prog[t]) : prog[t][i] = "r") => \A i \in 1..n : f.s[i].st # "owed"
Emit == (p = 1 /\ f.pend = {} /\ f.closing = 0 /\ \A t \in T : at[t].i = 1) => PrintT("SCN " \o ToJson([k |-> "feed", n |-> n, prog |-> prog]))
===========================================================================
