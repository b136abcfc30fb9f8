-------------------------------- MODULE Read --------------------------------
(***************************************************************************)
(* Reading recorded runs of the real code: what an observation of a world  *)
(* or of a tree shows, and when its views agree.                           *)
(***************************************************************************)
EXTENDS Forest, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr,      \* which run
          l        \* how many of its steps have been followed
T    == Traces[tr]
S(i) == T.s[i]

-----------------------------------------------------------------------------
(* Reading an observation.                                                  *)

Same(q) == q[1] # 0 /\ \A i \in DOMAIN q : q[i] = q[1]
NoDup(q, K(_)) == Cardinality({K(q[i]) : i \in DOMAIN q}) = Len(q)
\* Who is in whom (in itself included).
Insides(w) == UNION {{<<x, a>> : a \in Chain(w, x)} : x \in Ids(w)}

KeyI(r) == r.id
KeyR(r) == <<r.from, r.to>>
KeyP(r) == r[1]

AttrOf(q) == TLCEval([x \in {q[i].id : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].id = x].a])
ParOf(q)  == TLCEval([x \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = x][2]])
RelOf(q)  == TLCEval([pr \in {KeyR(q[i]) : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : KeyR(q[i]) = pr].a])

A(k) == T.tab.a[k]
P(k) == T.tab.p[k]
R(k) == T.tab.r[k]
Recs(k) == Range(A(k))

\* The world shown by an observation (its first view of each kind).
W(v) == [meta |-> T.tab.m[v.m[1]], attr |-> AttrOf(A(v.a[1])), par |-> ParOf(P(v.p[1])), rel |-> RelOf(R(v.r[1]))]

IdSet(v) == Range(T.tab.id[v.e[1]])
\* Placement views agree, cover exactly the existing items, and form a forest.
PlacesOk(v) == /\ Same(v.e) /\ Same(v.p) /\ v["in"] # 0 /\ v.ins # 0
               /\ NoDup(P(v.p[1]), KeyP)
               /\ LET w == [attr |-> [x \in IdSet(v) |-> 0], par |-> ParOf(P(v.p[1]))]
                  IN /\ IsForest(w)
                     /\ Range(P(v["in"])) = Insides(w)
                     /\ Range(P(v.ins)) = {<<x, x>> : x \in Ids(w)}
\* Relationship views agree, list no pair twice, and join existing items.
RelsOk(v) == /\ Same(v.e) /\ Same(v.r) /\ NoDup(R(v.r[1]), KeyR)
             /\ \A r \in Range(R(v.r[1])) : r.from \in IdSet(v) /\ r.to \in IdSet(v)
\* Attribute views agree, also on the copies of items seen through placements and relationships.
ItemsOk(v) == /\ Same(v.e) /\ Same(v.a) /\ NoDup(A(v.a[1]), KeyI)
              /\ {r.id : r \in Recs(v.a[1])} = IdSet(v)
              /\ v.ac # 0 /\ v.ap # 0 /\ v.ar # 0
              /\ Recs(v.ac) \cup Recs(v.ap) \cup Recs(v.ar) \subseteq Recs(v.a[1])
Consistent(v) == Same(v.m) /\ ItemsOk(v) /\ PlacesOk(v) /\ RelsOk(v)
Sound(v) == Consistent(v) /\ WellFormed(W(v))
Unchanged(u, v) == u = v
\* What the plainest views (the lists of items and relationships, the parent of each item) show is a world.
Readable(v) == /\ Len(v.m) > 0 /\ v.m[1] # 0 /\ v.a[1] # 0 /\ v.p[1] # 0 /\ v.r[1] # 0
               /\ NoDup(A(v.a[1]), KeyI) /\ NoDup(P(v.p[1]), KeyP) /\ NoDup(R(v.r[1]), KeyR)
               /\ WellFormed(W(v))

-----------------------------------------------------------------------------
(* Trees.  A tree is a record                                               *)
(*   root : the id of the root's item, or "" if the root has none           *)
(*   attr, par : as in a world; what is directly in a root without item has *)
(*               par "", what is directly in a root with item has its id    *)

TreeOf(v) == [root |-> v.roots, attr |-> AttrOf(A(v.a[1])), par |-> ParOf(P(v.p[1]))]
TreeSound(v) ==
  /\ Same(v.a) /\ Same(v.p) /\ NoDup(A(v.a[1]), KeyI) /\ NoDup(P(v.p[1]), KeyP)
  /\ v.ids # 0 /\ v.has # 0 /\ v.hass # 0 /\ v.desc # 0
  /\ LET t == TreeOf(v)
     IN /\ TreeForest(t)
        /\ Range(T.tab.id[v.ids]) = Ids(t)
        /\ Range(P(v.has))  = Insides(t)
        /\ Range(P(v.hass)) = {<<x, x>> : x \in Ids(t)}
        /\ Range(P(v.desc)) = {pr \in Insides(t) : pr[1] # pr[2]}
        /\ Len(P(v.desc)) = Cardinality(Range(P(v.desc)))
        /\ v.root = v.roots /\ v.pe
        /\ v.empty = (Ids(t) = {})
=============================================================================
