----------------------------- MODULE LangTrace -----------------------------
(* Checks what the real parser made of texts against Lang!Meaning. *)
EXTENDS World, TLC, Json, IOUtils
LOCAL L == INSTANCE Lang WITH LIds <- {}, LSeps <- {}, Deep <- FALSE, case <- 0

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
S(i) == Traces[tr].s[i]
Init == tr \in 1 .. Len(Traces) /\ l = 0
Next == l < Len(Traces[tr].s) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars

Got(s) == [rt |-> s.p.rt, verb |-> s.p.verb, id |-> s.p.id, ids |-> s.p.ids, sec |-> s.p.sec, params |-> Range(s.p.params), flags |-> s.p.flags, comp |-> s.p.comp]
C18 == l > 0 => LET s == S(l) IN
         IF s.e = "parse" THEN s.crash = "" /\ ~s.err /\ s.stmt = "Command" /\ Got(s) = L!Meaning(s.c, s.fl)
         ELSE s.crash = "" /\ (s.err \/ s.stmt # "Command")
=============================================================================
