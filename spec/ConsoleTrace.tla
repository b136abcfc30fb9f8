---------------------------- MODULE ConsoleTrace ----------------------------
(***************************************************************************)
(* Checks what the interactive console printed for the lines typed into    *)
(* it.  After every line the world is asked for in the console as well, so *)
(* that the effect of each line is judged by World.tla.                    *)
(***************************************************************************)
EXTENDS Read
vars == <<tr, l>>
Init == tr \in 1 .. Len(Traces) /\ l = 0
Next == l < Len(T.s) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars

\* s.gone: "" if the console printed its prompt again, otherwise "died" or "hang".
\* s.out: what it printed, without the last line break (s.nl tells whether there was one); s.st and s.o: that, read as a reply
\* (s.st: for text that is no command, the status in the last line; what stands before it is an account of the text).
\* s.nraw, s.no: the reply of an application that was given the same lines.  s.w: the world shown afterwards.
Obj(o) == [kind |-> o.kind, n |-> o.n, items |-> Range(o.items), rels |-> Range(o.rels), val |-> o.val,
           w |-> IF o.kind = "world" THEN W(o.w) ELSE 0]
Shown(i) == IF i = 0 THEN T.start ELSE S(i).w
IsShown(o) == o.kind = "world" /\ LET v == o.w IN NoDup(A(v.a[1]), KeyI) /\ NoDup(P(v.p[1]), KeyP) /\ NoDup(R(v.r[1]), KeyR) /\ WellFormed(W(v))
Same2 == IsShown(Shown(l)) /\ W(Shown(l).w) = W(Shown(l - 1).w)
\* The application's reply, except for the order of what is listed, and which of more than asked for are listed.
IsReply(s) == \/ s.out = s.nraw
              \/ s.o.kind \in {"items", "rels", "world"} /\ Obj(s.o) = Obj(s.no) /\ Len(s.out) = Len(s.nraw)
              \/ s.c.k \in {"item.list", "rel.list", "rel.fetch"} /\ s.o.kind = s.no.kind /\ s.o.n = s.no.n
C24 == l > 0 =>
  LET s == S(l) IN
  /\ s.gone = ""
  /\ s.e = "quit" => s.st = 0
  /\ s.e = "blank" => s.out = "" /\ ~s.nl
  /\ s.e = "raw" /\ s.inv => s.out # "" /\ s.st # 200
  /\ IsShown(Shown(l - 1)) =>
       /\ s.e = "blank" \/ (s.e = "raw" /\ s.inv) => Same2
       /\ s.e = "cmd" => LET r == Effect(W(Shown(l - 1).w), s.c)
                         IN /\ IsShown(s.w) /\ W(s.w.w) = r.w
                            /\ IF r.ok THEN s.st = 200 /\ Answers(Obj(s.o), r.w, s.c) ELSE s.st >= 400
  /\ s.e = "cmd" => s.nl /\ IsReply(s)
=============================================================================
