----------------------------- MODULE MultiTrace -----------------------------
(***************************************************************************)
(* Checks recorded runs over several worlds, trees and stored worlds       *)
(* against Worlds.tla.  What an operation must do is judged from the       *)
(* observation before it; what is stored, and where, is followed in disks  *)
(* and place.                                                              *)
(***************************************************************************)
EXTENDS Read, Worlds

VARIABLES disks,   \* what the specification says is stored in each place
          place    \* which place each store uses
vars == <<tr, l, disks, place>>

Live(s) == s.crash = ""
Mark(i) == S(i).slots                      \* the slots as observed after step i
None0   == [i \in 1 .. T.nslots |-> [k |-> "none"]]
Before  == IF l = 1 THEN None0 ELSE Mark(l - 1)
After   == Mark(l)

\* The slot shown by an observation.
SlotSound(m) == CASE m.k = "world" -> Sound(m.v) [] m.k = "tree" -> TreeSound(m.t) [] OTHER -> TRUE
SlotOf(m)    == CASE m.k = "world" -> WSlot(W(m.v)) [] m.k = "tree" -> TSlot(TreeOf(m.t)) [] OTHER -> Slot0
SameSlot(m, n) == m.k = n.k /\ (m.k = "world" => m.v = n.v) /\ (m.k = "tree" => m.t = n.t)

\* What is stored.
Listed(o) == IF o.lerr THEN {} ELSE Range(o.list)
\* What a store shows (o) is d.
Shows(o, d) ==
    /\ DOMAIN d # {} => ~o.lerr
    /\ Listed(o) = DOMAIN d /\ Len(o.list) = Cardinality(Range(o.list))
    /\ \A i \in DOMAIN o.disk :
          LET x == o.disk[i]
          IN IF x.name \in DOMAIN d THEN x.ok /\ Sound(x.v) /\ W(x.v) = d[x.name] ELSE ~x.ok
    /\ \A n \in DOMAIN d : \E i \in DOMAIN o.disk : o.disk[i].name = n
\* Every store shows what is in the place that it uses.
Stores(s) == \A k \in DOMAIN place : Shows(s.stores[k], disks[place[k]])

Init == tr \in 1 .. Len(Traces) /\ l = 0
        /\ disks = [p \in 1 .. T.nplaces |-> None] /\ place = [k \in 1 .. T.nstores |-> IF k <= T.nplaces THEN k ELSE 1]
Next == /\ l < Len(T.s)
        /\ l' = l + 1 /\ tr' = tr
        /\ place' = PlaceEffect(place, S(l + 1))
        /\ disks' = LET s == S(l + 1)
                        p == place[s.st]
                        d == disks[p]
                    IN IF s.e = "save" /\ Live(s) /\ ~s.err /\ Sound(Mark(l + 1)[s.slot].v)
                       THEN [disks EXCEPT ![p] = StoreAs(d, W(Mark(l + 1)[s.slot].v))]
                       ELSE IF s.e = "fsave" /\ Live(s) /\ Sound(Mark(l + 1)[s.slot].v)
                       THEN LET may == SaveOutcomes(d, W(Mark(l + 1)[s.slot].v), s.err, s.died)
                                ok  == {x \in may : Shows(s.stores[s.st], x)}
                            IN [disks EXCEPT ![p] = CHOOSE x \in may : ok # {} => x \in ok]
                       ELSE disks
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The step is one whose start was as it should be, and which makes sense.
Old == [i \in 1 .. T.nslots |-> SlotOf(Before[i])]
Judged == l > 0 /\ \A i \in 1 .. T.nslots : SlotSound(Before[i])
\* Its slot became what it should be.
Disk(s) == IF T.disk THEN disks[place[s.st]] ELSE None
Became(s) == LET r == SlotEffect(Old, Disk(s), s)
             IN SlotSound(After[s.slot]) /\ SlotOf(After[s.slot]) = r.s
TreeKinds == {"tnew", "tread", "tworld", "tadd", "tdel", "probe"}

\* C20
C20 == Judged =>
         LET s == S(l)
         IN /\ Live(s)
            /\ \A i \in 1 .. T.nslots : i # s.slot => SameSlot(Before[i], After[i])
            /\ s.e \in {"app", "save", "probe", "place"} => SameSlot(Before[s.slot], After[s.slot])
            /\ s.e \in {"new", "tnew"} => Became(s) /\ ~s.err
            /\ s.e \in {"tnew", "probe"} => s.eq
            /\ s.e = "read" => Became(s)
            /\ s.e \in {"cmd", "api"} => Became(s)
            /\ T.disk => Stores(s)
\* C21
C21 == Judged =>
         LET s == S(l)
             r == SlotEffect(Old, Disk(s), s)
         IN s.e \in TreeKinds =>
              /\ Live(s) /\ Became(s)
              /\ s.e # "tdel" => s.err = ~r.ok
              /\ s.e \in {"tnew", "tread", "tworld"} /\ r.ok =>
                    \* the items handed back are the items of the tree
                    /\ s.items # 0 /\ NoDup(A(s.items), KeyI) /\ AttrOf(A(s.items)) = r.s.t.attr
                    /\ s.e # "tworld" => s.eq
\* C15
C15 == (l > 0 /\ T.disk) =>
         LET s == S(l)
         IN /\ Live(s)
            /\ s.e = "save" => ~s.err
            /\ Stores(s)
            /\ (Judged /\ s.e = "load") => s.err = (s.name \notin DOMAIN Disk(s)) /\ Became(s)
            /\ Judged => \A i \in 1 .. T.nslots : (i # s.slot \/ s.e \in {"save", "place"}) => SameSlot(Before[i], After[i])
\* C16
C16 == (l > 0 /\ T.disk) =>
         LET s == S(l)
         IN /\ Live(s)
            /\ s.e = "save" => ~s.err
            /\ Stores(s)
            /\ (Judged /\ s.e = "load") => s.err = (s.name \notin DOMAIN Disk(s)) /\ Became(s)
=============================================================================
