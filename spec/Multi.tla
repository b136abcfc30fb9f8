-------------------------------- MODULE Multi --------------------------------
(* The state machine over Worlds.tla, in bounded instances that are checked exhaustively and printed as transitions. *)
EXTENDS Worlds, TLC, TLCExt, Json

CONSTANTS MSlots,     \* number of slots
          MKinds,     \* kinds of operations
          MCmds,      \* kinds of commands and calls
          MIds,       \* identifiers of items
          MNames,     \* names of worlds
          MMaxRels,
          MVals,      \* values of the name attribute
          MStores,    \* number of stores
          MPlaces     \* number of places

VARIABLES slots, disks, place, last
vars == <<slots, disks, place, last>>

C(k, id, to, ids, p) == [k |-> k, id |-> id, to |-> to, ids |-> ids, p |-> p, lim |-> 0, strict |-> FALSE]
Named == {<<<<"name", v>>>> : v \in MVals}
Cs == {c \in
         {C("item.create", x, "", <<>>, p) : x \in MIds, p \in Named \cup {<<>>}}
    \cup {C("item.set", x, "", <<>>, p) : x \in MIds, p \in Named}
    \cup {C("item.delete", x, "", <<>>, <<>>) : x \in MIds}
    \cup {C("rel.create", x, y, <<>>, <<>>) : x, y \in MIds}
    \cup {C("rel.delete", x, y, <<>>, <<>>) : x, y \in MIds}
    \cup {C("nest", "", y, <<x>>, <<>>) : x, y \in MIds}
    \cup {C("free", "", "", <<x>>, <<>>) : x \in MIds}
    \cup {C("meta.name", x, "", <<>>, <<>>) : x \in MNames}
    \cup {C("meta.expanded", x, "", <<>>, <<>>) : x \in {"", "x"}} : c.k \in MCmds}
NoC == C("", "", "", <<>>, <<>>)
Op(e, slot, src, name, at, c) == [e |-> e, slot |-> slot, src |-> src, name |-> name, at |-> at, c |-> c, st |-> 1]
N == 1 .. MSlots
K == 1 .. MStores
Ops == {o \in
         {Op("new", i, 0, n, "", NoC) : i \in N, n \in MNames}
    \cup {Op(e, i, j, "", "", NoC) : e \in {"read", "tworld"}, i, j \in N}
    \cup {Op(e, i, 0, "", "", c) : e \in {"cmd", "api"}, i \in N, c \in Cs}
    \cup {[Op("load", i, 0, n, "", NoC) EXCEPT !.st = k] : i \in N, n \in MNames, k \in K}
    \cup {[Op("save", i, 0, "", "", NoC) EXCEPT !.st = k] : i \in N, k \in K}
    \cup {[Op("place", 1, p, "", "", NoC) EXCEPT !.st = k] : p \in 1 .. MPlaces, k \in K}
    \cup {Op(e, i, 0, "", "", NoC) : e \in {"app", "tnew"}, i \in N}
    \cup {Op("tread", i, j, "", a, NoC) : i, j \in N, a \in MIds \cup {""}}
    \cup {Op("tadd", i, 0, "", a, C("", x, "", <<>>, p)) : i \in N, a \in MIds \cup {""}, x \in MIds, p \in Named \cup {<<>>}}
    \cup {Op("tdel", i, 0, "", a, C("", x, "", <<>>, <<>>)) : i \in N, a \in MIds \cup {""}, x \in MIds}
    \cup {Op("probe", i, 0, "", "", C("", x, "", <<>>, <<>>)) : i \in N, x \in MIds} : o.e \in MKinds}

Init == slots = [i \in N |-> Slot0] /\ disks = [p \in 1 .. MPlaces |-> None] /\ place = [k \in K |-> IF k <= MPlaces THEN k ELSE 1] /\ last = Op("", 0, 0, "", "", NoC)
Next == \E o \in Ops : /\ Enabled(slots, o)
                       /\ o.e = "cmd" => o.c.k \notin ApiMeta
                       /\ slots' = [slots EXCEPT ![o.slot] = SlotEffect(slots, DiskOf(disks, place, o), o).s]
                       /\ disks' = DisksEffect(slots, disks, place, o)
                       /\ place' = PlaceEffect(place, o)
                       /\ last' = o
Spec == Init /\ [][Next]_vars
View == <<slots, disks, place>>
Bound == \A i \in N : slots[i].k = "world" => Cardinality(Pairs(slots[i].w)) <= MMaxRels
Edge == PrintT("EDGE " \o ToJson([f |-> TLCFP(View), t |-> TLCFP(<<slots', disks', place'>>), c |-> last']))

-----------------------------------------------------------------------------
(* The properties, stated on the state machine. *)
WorldsOk == \A i \in N : IF slots[i].k = "tree" THEN TreeForest(slots[i].t) ELSE WellFormed(slots[i].w)
\* C20: an operation touches its own slot only.
Independent == [][\A i \in N : i # last'.slot => slots'[i] = slots[i]]_vars
EmptyStart == [][last'.e \in {"new", "tnew"} => Ids(slots'[last'.slot].w) = {} /\ Ids(slots'[last'.slot].t) = {}]_vars
\* C15: the store changes only by a save, and only under the name of the saved world; a world loads back as it was saved.
StoreFrame == [][/\ last'.e # "save" => disks' = disks
                 /\ last'.e # "place" => place' = place
                 /\ \A k \in K : k # last'.st => place'[k] = place[k]
                 /\ \A p \in 1 .. MPlaces : p # place[last'.st] => disks'[p] = disks[p]
                 /\ \A p \in 1 .. MPlaces : DOMAIN disks[p] \subseteq DOMAIN disks'[p]
                 /\ LET disk == disks[place[last'.st]] IN \A n \in DOMAIN disk : n # slots[last'.slot].w.meta.name => disks'[place[last'.st]][n] = disk[n]]_vars
StoreNames == \A p \in 1 .. MPlaces : \A n \in DOMAIN disks[p] : disks[p][n].meta.name = n /\ WellFormed(disks[p][n])
LoadBack == [][LET disk == disks[place[last'.st]] IN last'.e = "load" /\ last'.name \in DOMAIN disk => slots'[last'.slot].w = disk[last'.name]]_vars
\* C21: operations on a tree keep it a forest and lose nothing that was not deleted.
TreeFrame == [][last'.e \in {"tadd", "tdel"} =>
                  LET t == slots[last'.slot].t u == slots'[last'.slot].t x == last'.c.id
                  IN /\ Ids(t) \ {x} = Ids(u) \ {x}
                     /\ \A y \in Ids(t) \ {x} : /\ u.attr[y] = t.attr[y]
                                                /\ u.par[y] # t.par[y] => t.par[y] = x /\ x \notin Ids(u)
                     /\ (x \in Ids(t) \cap Ids(u) => Subtree(u, x) = Subtree(t, x))]_vars
=============================================================================
