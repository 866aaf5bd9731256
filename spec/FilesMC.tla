------------------------------ MODULE FilesMC -----------------------------
(* All short histories of opening, reading and inlining one component, and  *)
(* merging it into another.                                                 *)
EXTENDS Files, TLC, Json
CONSTANT MaxOps
VARIABLES kind, w, ops, res, start
vars == <<kind, w, ops, res, start>>
Store == [p |-> [data |-> "dp", get |-> "ok", fault |-> FALSE], e |-> [data |-> "", get |-> "ok", fault |-> FALSE],
          bad |-> [data |-> "", get |-> "err", fault |-> FALSE], flt |-> [data |-> "df", get |-> "ok", fault |-> TRUE]]
C(t, has, inl, p, r) == [text |-> t, hasText |-> has, inl |-> inl, path |-> p, rpath |-> r, file |-> 0, rfile |-> 0]
Starts == {<<"readme", C(t, t # "", FALSE, p, r)>> : t \in {"", "t"}, p \in {"", "p", "e", "bad", "flt"}, r \in {"", "p"}}
          \cup {<<"body", C(t[1], t[2], t[3], p, "")>> : t \in {<<"", FALSE, FALSE>>, <<"", TRUE, FALSE>>, <<"t", TRUE, FALSE>>, <<"", FALSE, TRUE>>},
                                                        p \in {"", "p", "bad", "flt"}}
Init == \E s \in Starts : kind = s[1] /\ w = [cs |-> <<s[2], C("", FALSE, FALSE, "", "")>>, fs |-> <<>>]
                          /\ ops = <<>> /\ res = "ok" /\ start = s[2]
Do(o, outs) == Len(ops) < MaxOps /\ ops' = Append(ops, o) /\ UNCHANGED <<kind, start>>
               /\ \E x \in outs : w' = x.w /\ res' = x.res
Next == \/ \E r \in BOOLEAN : Do(<<"open", 1, r>>, Open(kind, w, 1, Store, r))
        \/ kind # "body" /\ \E r \in BOOLEAN : Do(<<"inline", 1, r>>, Inline(kind, w, 1, Store, r))
        \/ kind # "body" /\ w.cs[1].rpath # "" /\ \E r \in BOOLEAN : Do(<<"openr", 1, r>>, OpenRendered(w, 1, Store, r))
        \/ \E i \in 1..2 : w.cs[i].file # 0 /\ Do(<<"read", i, FALSE>>, {Outcome(Use(w, w.cs[i].file), ReadRes(w, w.cs[i].file), <<>>)})
        \/ w.cs[1].rfile # 0 /\ Do(<<"read", 1, TRUE>>, {Outcome(Use(w, w.cs[1].rfile), ReadRes(w, w.cs[1].rfile), <<>>)})
        \/ Do(<<"merge", 2, FALSE>>, {Outcome(MergeFiles(w, 2, 1), "ok", <<>>)})
Spec == Init /\ [][Next]_vars

\* files and components refer to what there is
WellFormed == \A i \in 1..2 : w.cs[i].file \in 0..Len(w.fs) /\ w.cs[i].rfile \in 0..Len(w.fs)
\* content is never lost, by an operation that fails or one that succeeds
Meaning(c) == IF c.hasText THEN c.text ELSE IF c.path # "" THEN Store[c.path].data ELSE ""
Kept == [][w'.cs[1].file = 0 \/ w.cs[1].file # 0 \/ Meaning(w'.cs[1]) = Meaning(w.cs[1])]_vars
\* a file just opened reads as the content
Fresh == [][(\E r \in BOOLEAN : ops' = Append(ops, <<"open", 1, r>>)) /\ res' = "ok" /\ w'.cs[1].file # w.cs[1].file
             => Content(w', w'.cs[1].file) = Meaning(w'.cs[1])]_vars
\* nothing but inlining and merging changes what a component states
FailuresKeep == [][res' # "ok" => w'.cs[1].text = w.cs[1].text /\ w'.cs[1].path = w.cs[1].path]_vars
Scenario == (Len(ops) = MaxOps) => PrintT("SCN " \o ToJson([kind |-> kind, start |-> start, ops |-> ops]))
===========================================================================
