------------------------------- MODULE Worlds -------------------------------
(***************************************************************************)
(* Several worlds and trees held by one process, and a store of worlds     *)
(* under names.                                                            *)
(*                                                                         *)
(*   slots : sequence of [k, w, t]; k is "none", "world" or "tree"         *)
(*   disks : sequence of places, each a function from names to worlds      *)
(*   place : sequence of stores (those of the applications, and others),   *)
(*           each the number of the place it uses                          *)
(*                                                                         *)
(* An operation is a record                                                *)
(*   e : kind; slot : the one it works on; src : the one it reads;         *)
(*   name : of a new or stored world; at : a node of a tree; c : command;  *)
(*   st : the store it uses                                                *)
(***************************************************************************)
EXTENDS Forest

Slot0    == [k |-> "none", w |-> EmptyWorld(""), t |-> Tree0]
WSlot(w) == [k |-> "world", w |-> w, t |-> Tree0]
TSlot(t) == [k |-> "tree", w |-> EmptyWorld(""), t |-> t]

\* What the operation makes of its slot: [s |-> new slot, ok |-> accepted].
SlotEffect(slots, disk, o) ==
  LET old == slots[o.slot]
      Keep(ok) == [s |-> old, ok |-> ok]
      Put1(x)  == [s |-> x, ok |-> TRUE]
  IN CASE o.e = "new"    -> Put1(WSlot(EmptyWorld(o.name)))
       [] o.e = "read"   -> Put1(WSlot(slots[o.src].w))
       [] o.e = "cmd"    -> LET r == Effect(old.w, o.c) IN [s |-> WSlot(r.w), ok |-> r.ok]
       [] o.e = "api"    -> LET r == ApiEffect(old.w, o.c) IN [s |-> WSlot(r.w), ok |-> r.ok]
       [] o.e = "load"   -> IF o.name \in DOMAIN disk THEN Put1(WSlot(disk[o.name])) ELSE Keep(FALSE)
       [] o.e = "tnew"   -> Put1(TSlot(Tree0))
       [] o.e = "tread"  -> IF o.at # "" /\ o.at \notin Ids(slots[o.src].t) THEN Keep(FALSE) ELSE Put1(TSlot(TSub(slots[o.src].t, o.at)))
       [] o.e = "tworld" -> Put1(TSlot(TOfWorld(slots[o.src].w)))
       [] o.e = "tadd"   -> LET r == TAdd(old.t, o.at, o.c.id, o.c.p) IN [s |-> TSlot(r.w), ok |-> r.ok]
       [] o.e = "tdel"   -> Put1(TSlot(TDel(old.t, o.at, o.c.id)))
       [] OTHER          -> Keep(TRUE)           \* app, save, probe, place

StoreAs(disk, w) == [n \in DOMAIN disk \cup {w.meta.name} |-> IF n = w.meta.name THEN w ELSE disk[n]]
DiskOf(disks, place, o) == disks[place[o.st]]
DisksEffect(slots, disks, place, o) ==
  IF o.e = "save" THEN [disks EXCEPT ![place[o.st]] = StoreAs(@, slots[o.slot].w)] ELSE disks
\* A store is told to use another place.
PlaceEffect(place, o) == IF o.e = "place" THEN [place EXCEPT ![o.st] = o.src] ELSE place

\* What may be stored after a save in a process where it failed (SaveProtocol.tla): all of the old or all of the new,
\* and no new name if the failure was reported.
SaveOutcomes(disk, w, err, died) ==
  IF ~err /\ ~died THEN {StoreAs(disk, w)}
  ELSE {disk} \cup (IF died \/ w.meta.name \in DOMAIN disk THEN {StoreAs(disk, w)} ELSE {})

\* Which operations make sense.
Enabled(slots, o) ==
  CASE o.e \in {"new", "load", "tnew", "place"} -> TRUE
    [] o.e \in {"read", "tworld"}      -> slots[o.src].k = "world"
    [] o.e = "tread"                   -> slots[o.src].k = "tree"
    [] o.e \in {"tadd", "tdel", "probe"} -> slots[o.slot].k = "tree"
    [] OTHER                           -> slots[o.slot].k = "world"
=============================================================================
