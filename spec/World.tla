------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* The abstract world of topolith and the effect of every operation on it. *)
(*                                                                         *)
(* A world is a record                                                     *)
(*   meta : [version, id, name, expanded]                                  *)
(*   attr : function from item ids to attribute records                    *)
(*   par  : function from item ids to the id of the containing item,       *)
(*          or "" for an item at the top level                             *)
(*   rel  : function from ordered pairs <<from, to>> to attribute records  *)
(*                                                                         *)
(* This module is constant-level: it defines effects and answers.  The     *)
(* state machine over it is in Topolith.tla.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

ItemTypes == {"person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}
ItemKeys  == {"name", "type", "mechanism", "expanded", "external"}
RelKeys   == {"verb", "mechanism", "async", "expanded"}

Item0 == [name |-> "", type |-> "", mechanism |-> "", expanded |-> "", external |-> FALSE]
Rel0  == [verb |-> "", mechanism |-> "", async |-> FALSE, expanded |-> ""]

None == CHOOSE f \in [{} -> {}] : TRUE          \* the empty function
EmptyWorld(name) == [meta |-> [version |-> 1, id |-> name, name |-> name, expanded |-> ""],
                     attr |-> None, par |-> None, rel |-> None]

Ids(w)   == DOMAIN w.attr
Pairs(w) == DOMAIN w.rel

-----------------------------------------------------------------------------
(* Attributes.  A parameter list is a sequence of <<key, value>> strings.   *)

Coerce(k, v) == IF k \in {"external", "async"} THEN v = "true" ELSE v
RECURSIVE Put(_, _)
Put(rec, p) == IF p = <<>> THEN rec
               ELSE Put([rec EXCEPT ![p[1][1]] = Coerce(p[1][1], p[1][2])], Tail(p))
Given(p) == {p[i][1] : i \in DOMAIN p}
\* An unknown item type makes the whole parameter list invalid.
ValidItem(p) == \A i \in DOMAIN p : p[i][1] = "type" => p[i][2] \in ItemTypes \cup {""}
Matches(rec, p) == \A i \in DOMAIN p : rec[p[i][1]] = Coerce(p[i][1], p[i][2])

-----------------------------------------------------------------------------
(* Containment.                                                             *)

Children(w, x) == {y \in Ids(w) : w.par[y] = x}
\* x can be followed up to the top level in at most n steps
RECURSIVE Grounded(_, _, _)
Grounded(w, x, n) == \/ x = ""
                     \/ n > 0 /\ x \in DOMAIN w.par /\ Grounded(w, w.par[x], n - 1)
IsForest(w) == /\ DOMAIN w.par = Ids(w)
               /\ \A x \in Ids(w) : /\ w.par[x] \in Ids(w) \cup {""}
                                    /\ Grounded(w, x, Cardinality(Ids(w)))
RefIntact(w) == \A pr \in Pairs(w) : pr[1] \in Ids(w) /\ pr[2] \in Ids(w)
WellFormed(w) == IsForest(w) /\ RefIntact(w) /\ "" \notin Ids(w)

\* The chain of containers of x, x itself included.
RECURSIVE Chain(_, _)
Chain(w, x) == IF x = "" \/ x \notin Ids(w) THEN {} ELSE {x} \cup Chain(w, w.par[x])
\* x is a itself or somewhere inside a
Inside(w, x, a) == x \in Ids(w) /\ a \in Chain(w, x)
Subtree(w, a) == {x \in Ids(w) : Inside(w, x, a)}

-----------------------------------------------------------------------------
(* Effects of the primitive operations; [w |-> new world, ok |-> accepted]. *)

Acc(w) == [w |-> w, ok |-> TRUE]
Rej(w) == [w |-> w, ok |-> FALSE]

AddItem(w, x, p) == [w EXCEPT !.attr = [y \in Ids(w) \cup {x} |-> IF y = x THEN Put(Item0, p) ELSE w.attr[y]],
                              !.par  = [y \in Ids(w) \cup {x} |-> IF y = x THEN "" ELSE w.par[y]]]
PutItem(w, x, p) == [w EXCEPT !.attr[x] = Put(w.attr[x], p)]
DropItem(w, x) ==
  [w EXCEPT !.attr = [y \in Ids(w) \ {x} |-> w.attr[y]],
            !.par  = [y \in Ids(w) \ {x} |-> IF w.par[y] = x THEN w.par[x] ELSE w.par[y]],
            !.rel  = [pr \in {q \in Pairs(w) : q[1] # x /\ q[2] # x} |-> w.rel[pr]]]
AddRel(w, pr, p) == [w EXCEPT !.rel = [q \in Pairs(w) \cup {pr} |-> IF q = pr THEN Put(Rel0, p) ELSE w.rel[q]]]
PutRel(w, pr, p) == [w EXCEPT !.rel[pr] = Put(w.rel[pr], p)]
DropRel(w, pr)   == [w EXCEPT !.rel = [q \in Pairs(w) \ {pr} |-> w.rel[q]]]

ItemCreate(w, x, p) == IF x = "" THEN Rej(w)
                       ELSE IF x \in Ids(w) THEN Acc(w)
                       ELSE IF ~ValidItem(p) THEN Rej(w) ELSE Acc(AddItem(w, x, p))
ItemSet(w, x, p)    == IF x \notin Ids(w) \/ ~ValidItem(p) THEN Rej(w) ELSE Acc(PutItem(w, x, p))
ItemDelete(w, x)    == IF x \in Ids(w) THEN Acc(DropItem(w, x)) ELSE Acc(w)
RelCreate(w, pr, p) == IF pr[1] \notin Ids(w) \/ pr[2] \notin Ids(w) THEN Rej(w)
                       ELSE IF pr \in Pairs(w) THEN Acc(w) ELSE Acc(AddRel(w, pr, p))
RelSet(w, pr, p)    == IF pr \notin Pairs(w) THEN Rej(w) ELSE Acc(PutRel(w, pr, p))
RelDelete(w, pr)    == IF pr \in Pairs(w) THEN Acc(DropRel(w, pr)) ELSE Acc(w)

\* Moving x directly inside a.  Moving x into itself is a no-op.
Nest(w, x, a) == IF x \notin Ids(w) \/ a \notin Ids(w) THEN Rej(w)
                 ELSE IF x = a THEN Acc(w)
                 ELSE IF Inside(w, a, x) THEN Rej(w)
                 ELSE Acc([w EXCEPT !.par[x] = a])
Free(w, x) == IF x \notin Ids(w) THEN Rej(w) ELSE Acc([w EXCEPT !.par[x] = ""])

\* Several items in one command: one after the other, refused ones are skipped and reported.
RECURSIVE NestAll(_, _, _)
NestAll(w, xs, a) == IF xs = <<>> THEN Acc(w)
                     ELSE LET one == Nest(w, Head(xs), a)
                              rest == NestAll(one.w, Tail(xs), a)
                          IN [w |-> rest.w, ok |-> one.ok /\ rest.ok]
RECURSIVE FreeAll(_, _)
FreeAll(w, xs) == IF xs = <<>> THEN Acc(w)
                  ELSE LET one == Free(w, Head(xs))
                           rest == FreeAll(one.w, Tail(xs))
                       IN [w |-> rest.w, ok |-> one.ok /\ rest.ok]

-----------------------------------------------------------------------------
(* Queries.                                                                 *)

RelsBetween(w, a, b, strict) ==
  {pr \in Pairs(w) : IF strict THEN pr = <<a, b>>
                     ELSE /\ pr[1] = a \/ Inside(w, pr[1], a)
                          /\ pr[2] = b \/ Inside(w, pr[2], b)}
RelsTo(w, b, strict)   == {pr \in Pairs(w) : IF strict THEN pr[2] = b ELSE Inside(w, pr[2], b)}
RelsFrom(w, a, strict) == {pr \in Pairs(w) : IF strict THEN pr[1] = a ELSE Inside(w, pr[1], a)}
\* "in? x a": is x somewhere inside a (or a itself); strict: is it exactly a
Contained(w, x, a, strict) == IF strict THEN x = a /\ a \in Ids(w)
                              ELSE a \in Ids(w) /\ Inside(w, x, a)
Counted(n, limit) == IF limit > 0 /\ limit < n THEN limit ELSE n

-----------------------------------------------------------------------------
(* Commands of the language.  A command is a record                         *)
(*   k : kind, id, to : strings, ids : sequence, p : parameters,            *)
(*   lim : number (0: none), strict : boolean                               *)

ItemMut == {"item.create", "item.set", "item.clear", "item.delete", "item.cof", "item.cos"}
RelMut  == {"rel.create", "rel.set", "rel.clear", "rel.delete", "rel.cof", "rel.cos"}
TreeMut == {"nest", "free"}
Mutators == ItemMut \cup RelMut \cup TreeMut
Queries == {"item.fetch", "item.list", "item.in", "item.exists", "in?",
            "rel.fetch", "rel.list", "rel.exists", "to?", "from?", "world"}

Pair(c) == <<c.id, c.to>>

\* The effect of a command on the world.
Effect(w, c) ==
  CASE c.k = "item.create" -> IF c.id \in Ids(w) THEN Acc(w) ELSE ItemCreate(w, c.id, c.p)
    [] c.k = "item.cof"    -> ItemCreate(w, c.id, <<>>)
    [] c.k = "item.cos"    -> IF c.id \in Ids(w) THEN ItemSet(w, c.id, c.p) ELSE ItemCreate(w, c.id, c.p)
    [] c.k = "item.set"    -> ItemSet(w, c.id, c.p)
    [] c.k = "item.clear"  -> ItemSet(w, c.id, c.p)
    [] c.k = "item.delete" -> ItemDelete(w, c.id)
    [] c.k = "rel.create"  -> RelCreate(w, Pair(c), c.p)
    [] c.k = "rel.cof"     -> RelCreate(w, Pair(c), <<>>)
    [] c.k = "rel.cos"     -> IF Pair(c) \in Pairs(w) THEN RelSet(w, Pair(c), c.p) ELSE RelCreate(w, Pair(c), c.p)
    [] c.k = "rel.set"     -> RelSet(w, Pair(c), c.p)
    [] c.k = "rel.clear"   -> RelSet(w, Pair(c), c.p)
    [] c.k = "rel.delete"  -> RelDelete(w, Pair(c))
    [] c.k = "nest"        -> NestAll(w, c.ids, c.to)
    [] c.k = "free"        -> FreeAll(w, c.ids)
    [] c.k = "item.fetch"  -> [w |-> w, ok |-> c.id \in Ids(w)]
    [] c.k = "item.in"     -> [w |-> w, ok |-> c.id \in Ids(w)]
    [] c.k = "rel.fetch"   -> [w |-> w, ok |-> RelsBetween(w, c.id, c.to, c.strict) # {}]
    [] OTHER               -> Acc(w)

\* The effect of a call of the world's own interface.
ApiEffect(w, c) == IF c.k \in {"item.create", "rel.create", "item.set", "rel.set", "item.cos", "rel.cos", "item.delete", "rel.delete", "nest", "free"} THEN Effect(w, c)
                   ELSE CASE c.k = "meta.name"     -> Acc([w EXCEPT !.meta.name = c.id])
                          [] c.k = "meta.id"       -> Acc([w EXCEPT !.meta.id = c.id])
                          [] c.k = "meta.expanded" -> Acc([w EXCEPT !.meta.expanded = c.id])
                          [] c.k = "meta.version"  -> Acc([w EXCEPT !.meta.version = c.lim])
                          [] OTHER -> Acc(w)
ApiMutators == {"item.cos", "rel.cos", "item.create", "item.set", "item.delete", "rel.create", "rel.set", "rel.delete", "nest", "free"}
ApiMeta     == {"meta.name", "meta.id", "meta.expanded", "meta.version"}

-----------------------------------------------------------------------------
(* Answers.  An answer object is a record                                   *)
(*   kind  : "items", "rels", "bool", "world", "empty", ...                 *)
(*   n     : how many entries were listed                                   *)
(*   items : set of [id, a] ; rels : set of [from, to, a] ; val : boolean   *)
(*   w     : the world shown (for kind "world")                             *)

ItemRec(w, x) == [id |-> x, a |-> w.attr[x]]
RelRec(w, pr) == [from |-> pr[1], to |-> pr[2], a |-> w.rel[pr]]

ShowsItems(o, w, xs) == /\ o.kind = (IF xs = {} THEN "empty" ELSE "items")
                        /\ o.n = Cardinality(xs)
                        /\ o.items = {ItemRec(w, x) : x \in xs}
ShowsRels(o, w, prs) == /\ o.kind = (IF prs = {} THEN "empty" ELSE "rels")
                        /\ o.n = Cardinality(prs)
                        /\ o.rels = {RelRec(w, pr) : pr \in prs}
ShowsSomeItems(o, w, n) == /\ o.kind = (IF n = 0 THEN "empty" ELSE "items")
                           /\ o.n = n /\ Cardinality(o.items) = n
                           /\ o.items \subseteq {ItemRec(w, x) : x \in Ids(w)}
ShowsSomeRels(o, w, n) == /\ o.kind = (IF n = 0 THEN "empty" ELSE "rels")
                          /\ o.n = n /\ Cardinality(o.rels) = n
                          /\ o.rels \subseteq {RelRec(w, pr) : pr \in Pairs(w)}
ShowsOneRel(o, w, prs) == /\ o.kind = "rels" /\ o.n = 1
                          /\ o.rels \subseteq {RelRec(w, pr) : pr \in prs} /\ o.rels # {}
ShowsBool(o, b) == o.kind = "bool" /\ o.val = b

\* o is a right answer to the accepted command c, where w is the world after it.
Answers(o, w, c) ==
  CASE c.k \in {"item.create", "item.cof", "item.cos", "item.set", "item.clear", "item.fetch"}
                           -> ShowsItems(o, w, {c.id})
    [] c.k \in {"rel.create", "rel.cof", "rel.cos", "rel.set", "rel.clear"}
                           -> ShowsRels(o, w, {Pair(c)})
    [] c.k \in {"item.delete", "rel.delete"} -> o.kind \in {"blank", "empty"}
    [] c.k \in TreeMut     -> ShowsBool(o, TRUE)
    [] c.k = "item.list"   -> ShowsSomeItems(o, w, Counted(Cardinality(Ids(w)), c.lim))
    [] c.k = "rel.list"    -> ShowsSomeRels(o, w, Counted(Cardinality(Pairs(w)), c.lim))
    [] c.k = "item.in"     -> ShowsItems(o, w, Children(w, c.id))
    [] c.k = "item.exists" -> ShowsBool(o, c.id \in Ids(w))
    [] c.k = "rel.exists"  -> ShowsBool(o, Pair(c) \in Pairs(w))
    [] c.k = "in?"         -> ShowsBool(o, Contained(w, c.id, c.to, c.strict))
    [] c.k = "rel.fetch"   -> ShowsOneRel(o, w, RelsBetween(w, c.id, c.to, c.strict))
    [] c.k = "to?"         -> ShowsRels(o, w, RelsTo(w, c.id, c.strict))
    [] c.k = "from?"       -> ShowsRels(o, w, RelsFrom(w, c.id, c.strict))
    [] c.k = "world"       -> o.kind = "world" /\ o.w = w
    [] OTHER               -> FALSE
=============================================================================
