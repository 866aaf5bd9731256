----------------------------- MODULE FilesTrace ---------------------------
(* Conformance of recorded histories to Files. Every event shows all        *)
(* components; the content of a file shows when it is read.                 *)
EXTENDS Files, TraceBase
VARIABLES w, store, kind
vars == <<w, store, kind, l>>
Init == w = [cs |-> <<>>, fs |-> <<>>] /\ store = <<>> /\ kind = "" /\ l = 1
Names(x) == [k \in 1..Len(x.fs) |-> x.fs[k].name]
Shown(x) == E.cs = x.cs /\ E.names = Names(x)
To(x) == w' = x /\ Shown(x) /\ UNCHANGED <<store, kind>>
Res(outs) == \E o \in outs : To(o.w) /\ E.res = o.res /\ E.calls = o.calls

TBegin == /\ Is("begin") /\ store' = E.store /\ kind' = E.kind
          /\ w' = [cs |-> E.cs, fs |-> <<>>] /\ E.names = <<>>
          /\ \A i \in 1..Len(E.cs) : E.cs[i].file = NoFile /\ E.cs[i].rfile = NoFile
\* a field of a component set from outside
TEdit == /\ Is("edit") /\ Len(E.cs) = Len(w.cs)
         /\ To([w EXCEPT !.cs[E.i] = [E.c EXCEPT !.file = w.cs[E.i].file, !.rfile = w.cs[E.i].rfile]])
TSetFile == /\ Is("setfile")
            /\ LET x == AddFile(w, NewFile(E.name, E.data, E.fault))
                   n == Len(x.fs)
               IN To(IF E.rendered THEN [x EXCEPT !.cs[E.i].rfile = n] ELSE [x EXCEPT !.cs[E.i].file = n])
TUnset == Is("unset") /\ To(IF E.rendered THEN [w EXCEPT !.cs[E.i].rfile = NoFile] ELSE [w EXCEPT !.cs[E.i].file = NoFile])
TOpen == Is("open") /\ Res(Open(kind, w, E.i, store, E.resolver))
TOpenR == Is("openr") /\ Res(OpenRendered(w, E.i, store, E.resolver))
TInline == Is("inline") /\ Res(Inline(kind, w, E.i, store, E.resolver))
TRead == /\ Is("read")
         /\ LET k == IF E.rendered THEN w.cs[E.i].rfile ELSE w.cs[E.i].file
            IN /\ k # NoFile
               /\ E.data = Content(w, k) /\ E.res = ReadRes(w, k)
               /\ To(Use(w, k))
TMerge == Is("merge") /\ To(MergeFiles(w, E.i, E.j))
Next == TBegin \/ TEdit \/ TSetFile \/ TUnset \/ TOpen \/ TOpenR \/ TInline \/ TRead \/ TMerge
Spec == Init /\ [][Next]_vars
===========================================================================
