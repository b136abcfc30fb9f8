---------------------------- MODULE SaveProtocol ----------------------------
(***************************************************************************)
(* Saving a world, one file-system call at a time, with an error or the    *)
(* death of the process possible at every call.  The protocol the code     *)
(* uses (write a temporary file, then rename it) keeps the guarantee of    *)
(* property C16 in every case; it is what MultiTrace.tla demands of an     *)
(* observed save that fails (operation fsave of Worlds.tla).               *)
(*                                                                         *)
(* File contents: "absent", "old" (the world saved before), "new" (the one *)
(* being saved, complete), "part" (an initial part of it).                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Protocol      \* "rename"; "inplace", "aside" and "fallback" are protocols without the guarantee, kept as a check of this model
VARIABLES had,          \* whether a world was saved under the name before
          name, temp,   \* contents of the file of the name, and of the temporary file
          pc, outcome   \* outcome: "running", "ok", "error", "died"
vars == <<had, name, temp, pc, outcome>>

Init == /\ had \in BOOLEAN /\ name = (IF had THEN "old" ELSE "absent")
        /\ temp = "absent" /\ pc = "start" /\ outcome = "running"

Running == outcome = "running"
Go(p) == pc' = p /\ UNCHANGED <<had, outcome>>
Start == pc = "start" /\ UNCHANGED <<name, temp>> /\ Go(IF Protocol \in {"rename", "fallback"} THEN "create" ELSE IF Protocol = "aside" THEN "moveaside" ELSE "truncate")
\* rename protocol
Create    == pc = "create"    /\ temp' = "part" /\ UNCHANGED name /\ Go("write")
WriteSome == pc = "write"     /\ temp' = "part" /\ UNCHANGED name /\ Go("write2")
WriteRest == pc = "write2"    /\ temp' = "new"  /\ UNCHANGED name /\ Go("sync")
Sync      == pc = "sync"      /\ UNCHANGED <<name, temp>> /\ Go("close")
Close     == pc = "close"     /\ UNCHANGED <<name, temp>> /\ Go("rename")
Rename    == pc = "rename"    /\ name' = temp /\ temp' = "absent" /\ Go("done")
\* in place
Truncate  == pc = "truncate"  /\ name' = "part" /\ UNCHANGED temp /\ Go("fill")
Fill      == pc = "fill"      /\ name' = "new" /\ UNCHANGED temp /\ Go("done")
\* moving the old one aside first
MoveAside == pc = "moveaside" /\ temp' = name /\ name' = "absent" /\ Go("fill")
Done      == pc = "done" /\ outcome' = "ok" /\ UNCHANGED <<had, name, temp, pc>>
\* A call fails: what was begun is given up, the temporary file is removed (or not, if that fails too, or the process dies).
Fail == /\ pc \notin {"done", "cleanup"} /\ pc' = IF Protocol = "fallback" /\ pc = "rename" THEN "truncate" ELSE "cleanup"
        /\ UNCHANGED <<had, name, temp, outcome>>
Cleanup == /\ pc = "cleanup" /\ outcome' = "error" /\ temp' \in {temp, "absent"} /\ UNCHANGED <<had, name, pc>>
Die  == outcome' = "died" /\ UNCHANGED <<had, name, temp, pc>>

Next == Running /\ (Start \/ Create \/ WriteSome \/ WriteRest \/ Sync \/ Close \/ Rename \/ Truncate \/ Fill \/ MoveAside \/ Done \/ Fail \/ Cleanup \/ Die)
Spec == Init /\ [][Next]_vars

Kept == /\ name \in {"old", "new", "absent"}
        /\ had => name # "absent"
        /\ outcome = "ok" => name = "new"
        /\ outcome = "error" => name = (IF had THEN "old" ELSE "absent")
=============================================================================
