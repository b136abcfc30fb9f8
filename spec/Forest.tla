------------------------------- MODULE Forest -------------------------------
(* The operations of a tree (see Read.tla for what a tree is). *)
EXTENDS World

Tree0 == [root |-> "", attr |-> None, par |-> None]

TreeForest(t) == /\ IsForest(t)
                 /\ t.root # "" => t.root \in Ids(t) /\ \A x \in Ids(t) : (t.par[x] = "") = (x = t.root)

\* Adding item x (with attributes p), or moving it with everything inside it, directly into node at ("" for the root).
TAdd(t, at, x, p) ==
  LET node == IF at = "" THEN t.root ELSE at
  IN IF at # "" /\ at \notin Ids(t) THEN Rej(t)
     ELSE IF node = x THEN Acc(t)
     ELSE IF x \in Ids(t) THEN IF node # "" /\ Inside(t, node, x) THEN Rej(t) ELSE Acc([t EXCEPT !.par[x] = node])
     ELSE Acc([t EXCEPT !.attr = [y \in Ids(t) \cup {x} |-> IF y = x THEN Put(Item0, p) ELSE t.attr[y]],
                        !.par  = [y \in Ids(t) \cup {x} |-> IF y = x THEN node ELSE t.par[y]]])
\* Deleting x if it is node at or inside it: its components move to the place it was in.
TDel(t, at, x) ==
  LET node == IF at = "" THEN t.root ELSE at
  IN IF x \notin Ids(t) \/ (at # "" /\ at \notin Ids(t)) THEN t
     ELSE IF node # "" /\ ~Inside(t, x, node) THEN t
     ELSE [root |-> IF t.root = x THEN "" ELSE t.root,
           attr |-> [y \in Ids(t) \ {x} |-> t.attr[y]],
           par  |-> [y \in Ids(t) \ {x} |-> IF t.par[y] = x THEN t.par[x] ELSE t.par[y]]]
\* The part under node at, as a tree of its own.
TSub(t, at) ==
  LET node == IF at = "" THEN t.root ELSE at
      keep == IF node = "" THEN Ids(t) ELSE Subtree(t, node)
  IN [root |-> node,
      attr |-> [y \in keep |-> t.attr[y]],
      par  |-> [y \in keep |-> IF y = node THEN "" ELSE t.par[y]]]
TOfWorld(w) == [root |-> "", attr |-> w.attr, par |-> w.par]
=============================================================================
