-------------------------------- MODULE Equal --------------------------------
(***************************************************************************)
(* Equality of worlds.  A world is held as lists in some order (the order  *)
(* in which a map happens to be walked); comparing sorts both and compares *)
(* entry by entry.  On every pair of small worlds, in every order, that    *)
(* answers exactly whether the contents are the same.  TLC also prints     *)
(* the worlds, which are built in the real code in several ways.           *)
(***************************************************************************)
EXTENDS World, TLC, Json

CONSTANTS QIds, QMaxRels, QMetas, QPrint
VARIABLES x, y
vars == <<x, y>>

Pars  == {<<>>, <<<<"name", "n">>>>, <<<<"mechanism", "n">>>>, <<<<"external", "true">>>>, <<<<"type", "code">>>>, <<<<"expanded", "n">>>>}
RPars == {<<>>, <<<<"verb", "n">>>>, <<<<"mechanism", "n">>>>, <<<<"async", "true">>>>, <<<<"expanded", "n">>>>}
Metas == {m \in {[version |-> v, id |-> i, name |-> n, expanded |-> e] : v \in {1, 2}, i, n \in {"w", "v"}, e \in {"", "n"}} :
            QMetas \/ m = [version |-> 1, id |-> "w", name |-> "w", expanded |-> ""]}
Forests(S) == {f \in [S -> S \cup {""}] : IsForest([attr |-> [z \in S |-> 0], par |-> f])}
Rels(S) == {R \in SUBSET (S \X S) : Cardinality(R) <= QMaxRels}
First(S) == CHOOSE z \in S : TRUE
Worlds0 == UNION {UNION {{[meta |-> m, attr |-> [z \in S |-> IF z = a THEN Put(Item0, p) ELSE Item0], par |-> f, rel |-> [pr \in R |-> Put(Rel0, q)]]
                           : a \in S \cup {""}, p \in (IF S = {} THEN {<<>>} ELSE Pars), q \in (IF R = {} THEN {<<>>} ELSE RPars), m \in Metas}
                         : f \in Forests(S), R \in Rels(S)} : S \in SUBSET QIds}

\* A world as it is held: lists in some order.
Orders(S) == {q \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN q : q[i] = q[j] => i = j}
Held(w, oi, or) == [meta |-> w.meta, items |-> [i \in DOMAIN oi |-> [id |-> oi[i], a |-> w.attr[oi[i]], par |-> w.par[oi[i]]]],
                    rels |-> [i \in DOMAIN or |-> [from |-> or[i][1], to |-> or[i][2], a |-> w.rel[or[i]]]]]
\* Sorting by a total order of the keys (positions in a fixed list of identifiers).
IdPos == SetToSeq(QIds)
Pos(z) == CHOOSE i \in DOMAIN IdPos : IdPos[i] = z
SortedI(q) == SortSeq(q, LAMBDA u, v : Pos(u.id) < Pos(v.id))
SortedR(q) == SortSeq(q, LAMBDA u, v : IF u.from = v.from THEN Pos(u.to) < Pos(v.to) ELSE Pos(u.from) < Pos(v.from))
Equal(h, k) == h.meta = k.meta /\ SortedI(h.items) = SortedI(k.items) /\ SortedR(h.rels) = SortedR(k.rels)

Init == x \in Worlds0 /\ y \in (IF QPrint THEN {x} ELSE Worlds0)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Exactly == \A o1 \in Orders(Ids(x)), o2 \in Orders(Ids(y)) :
             \A r1 \in Orders(Pairs(x)), r2 \in Orders(Pairs(y)) :
               Equal(Held(x, o1, r1), Held(y, o2, r2)) <=> x = y
RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>> ELSE LET z == CHOOSE z \in S : TRUE IN <<z>> \o Desc(S \ {z})
Show == QPrint => PrintT("EDGE " \o ToJson([f |-> 0, t |-> 0, c |-> [meta |-> x.meta, items |-> [i \in 1 .. Cardinality(Ids(x)) |-> LET z == Desc(Ids(x))[i] IN [id |-> z, a |-> x.attr[z], par |-> x.par[z]]],
                                              rels |-> [i \in 1 .. Cardinality(Pairs(x)) |-> LET z == Desc(Pairs(x))[i] IN [from |-> z[1], to |-> z[2], a |-> x.rel[z]]]]]))
=============================================================================
