------------------------------ MODULE ParTrace ------------------------------
(***************************************************************************)
(* Scripts on worlds of their own, run one after the other and then all at *)
(* once.  By Multi!Independent an interleaving of operations on different  *)
(* slots leaves each slot as its own operations alone make it, and by      *)
(* Multi!StoreFrame a save under one name leaves the others; so every step *)
(* shows the same in both runs.                                            *)
(***************************************************************************)
EXTENDS Read
vars == <<tr, l>>
Init == tr \in 1 .. Len(Traces) /\ l = 0
Next == l < Len(T.s) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Par == l > 0 => /\ S(l).alone.crash = "" => S(l).par.crash = ""
                /\ S(l).par = S(l).alone
=============================================================================
