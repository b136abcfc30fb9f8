----------------------------- MODULE BridgeTrace -----------------------------
(***************************************************************************)
(* Checks what was sent to and returned by the browser bridge.  After      *)
(* every call the world is asked for through the bridge as well, so that   *)
(* the effect of each call is judged by World.tla.                         *)
(***************************************************************************)
EXTENDS Read
vars == <<tr, l>>
Init == tr \in 1 .. Len(Traces) /\ l = 0
Next == l < Len(T.s) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars

Obj(o) == [kind |-> o.kind, n |-> o.n, items |-> Range(o.items), rels |-> Range(o.rels), val |-> o.val,
           w |-> IF o.kind = "world" THEN W(o.w) ELSE 0]
Shown(i) == IF i = 0 THEN T.start ELSE S(i).w
IsShown(o) == o.kind = "world" /\ LET v == o.w IN NoDup(A(v.a[1]), KeyI) /\ NoDup(P(v.p[1]), KeyP) /\ NoDup(R(v.r[1]), KeyR) /\ WellFormed(W(v))

\* The reply says the same in each of its parts.
Agrees(s) ==
  /\ s.json
  /\ s.status = s.st /\ s.dcode = s.st                    \* the status code of the reply text
  /\ s.pcode = s.st => (s.dtype = s.ptype /\ s.drepr = s.prepr /\ s.dmsg = s.pmsg)
  /\ (s.st = 200) = (s.errs = <<>>)
  /\ s.st # 200 => /\ <<"code", ToString(s.st)>> \in Range(s.errs)
                   /\ <<"message", s.msg>> \in Range(s.errs)
  \* the reply text of the application: the same, except for the order of what is listed
  /\ \/ s.raw = s.nraw
     \/ s.o.kind \in {"items", "rels", "world"} /\ Obj(s.o) = Obj(s.no) /\ Len(s.raw) = Len(s.nraw)
     \/ s.e = "cmd" /\ s.c.k \in {"item.list", "rel.list", "rel.fetch"} /\ s.o.kind = s.no.kind /\ s.o.n = s.no.n   \* which ones are listed may differ
     \/ s.e = "raw" /\ ~s.inv /\ s.st = 200 /\ s.o.kind \in {"items", "rels"} /\ s.o.kind = s.no.kind /\ s.o.n = s.no.n   \* as well, if it is such a command
C19 == l > 0 =>
  LET s == S(l) IN
  /\ ~s.thrown
  /\ s.w.kind = "world"
  /\ s.e = "badcall" => s.w = Shown(l - 1) \/ W(s.w.w) = W(Shown(l - 1).w)
  /\ s.e # "badcall" => Agrees(s)
  /\ s.e = "raw" /\ s.inv => s.st = 400 /\ W(s.w.w) = W(Shown(l - 1).w)
  /\ s.e = "cmd" /\ IsShown(Shown(l - 1)) =>
       LET r == Effect(W(Shown(l - 1).w), s.c)
       IN /\ IsShown(s.w) /\ W(s.w.w) = r.w
          /\ IF r.ok THEN s.st = 200 /\ Answers(Obj(s.o), r.w, s.c) ELSE s.st >= 400
=============================================================================
