-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* The text of a world or of a tree, as a sequence of tokens: what is a    *)
(* complete text, and what world or tree it describes.                     *)
(*                                                                         *)
(* A token is a record [t, id, to, p, n]:                                  *)
(*   BW $$world     VN version=n   ID id="id"   NM name="id"               *)
(*   EX expanded="id"              EW endworld$$                           *)
(*   TO tree{       NI nil         IT item "id" p    OP ::[    CL ]}       *)
(*   RL rel "id" "to" p            RAW any other text                      *)
(***************************************************************************)
EXTENDS Forest

Tk(t)          == [t |-> t, id |-> "", to |-> "", p |-> <<>>, n |-> 0]
TkS(t, s)      == [Tk(t) EXCEPT !.id = s]
TkN(n)         == [Tk("VN") EXCEPT !.n = n]
TkI(x, p)      == [Tk("IT") EXCEPT !.id = x, !.p = p]
TkR(x, y, p)   == [Tk("RL") EXCEPT !.id = x, !.to = y, !.p = p]

At(d, i) == IF i \in DOMAIN d THEN d[i].t ELSE "end"
Bad      == [ok |-> FALSE, i |-> 0, it |-> <<>>]

\* The tree that starts at token i, directly in par: it ends before token .i and lists <<id, container, parameters>>.
RECURSIVE TreeAt(_, _, _, _), TreesAt(_, _, _)
TreeAt(d, i, par, top) ==
  IF ~(At(d, i) = "TO" /\ At(d, i + 1) \in (IF top THEN {"NI", "IT"} ELSE {"IT"}) /\ At(d, i + 2) = "OP") THEN Bad
  ELSE LET node == IF At(d, i + 1) = "NI" THEN "" ELSE d[i + 1].id
           own  == IF At(d, i + 1) = "NI" THEN <<>> ELSE <<<<node, par, d[i + 1].p>>>>
           in   == TreesAt(d, i + 3, node)
       IN IF ~in.ok \/ At(d, in.i) # "CL" THEN Bad ELSE [ok |-> TRUE, i |-> in.i + 1, it |-> own \o in.it]
TreesAt(d, i, par) ==
  IF At(d, i) # "TO" THEN [ok |-> TRUE, i |-> i, it |-> <<>>]
  ELSE LET one == TreeAt(d, i, par, FALSE)
       IN IF ~one.ok THEN Bad
          ELSE LET rest == TreesAt(d, one.i, par)
               IN IF ~rest.ok THEN Bad ELSE [ok |-> TRUE, i |-> rest.i, it |-> one.it \o rest.it]

Distinct(q)  == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
IdsOf(it)    == [k \in DOMAIN it |-> it[k][1]]
\* The items of one tree are named, distinct, and have parameters of items.
ItemsFine(it) == /\ Distinct(IdsOf(it)) /\ "" \notin Range(IdsOf(it))
                 /\ \A k \in DOMAIN it : Given(it[k][3]) \subseteq ItemKeys /\ ValidItem(it[k][3])
AttrOfIt(it) == [x \in Range(IdsOf(it)) |-> Put(Item0, it[CHOOSE k \in DOMAIN it : it[k][1] = x][3])]
ParOfIt(it)  == [x \in Range(IdsOf(it)) |-> it[CHOOSE k \in DOMAIN it : it[k][1] = x][2]]

-----------------------------------------------------------------------------
(* The text of a tree. *)
IsTreeDoc(d)  == LET t == TreeAt(d, 1, "", TRUE) IN t.ok /\ t.i = Len(d) + 1 /\ ItemsFine(t.it)
TreeOfDoc(d) == LET t == TreeAt(d, 1, "", TRUE)
                IN [root |-> IF d[2].t = "NI" THEN "" ELSE d[2].id, attr |-> AttrOfIt(t.it), par |-> ParOfIt(t.it)]

(* The text of a world. *)
Head5(d)    == /\ Len(d) >= 9
               /\ [i \in 1 .. 5 |-> d[i].t] = <<"BW", "VN", "ID", "NM", "EX">>
RelToks(d, i) == SubSeq(d, i, Len(d) - 1)
IsWorldDoc(d) ==
  Head5(d) /\ LET t == TreeAt(d, 6, "", TRUE)
              IN /\ t.ok /\ t.i <= Len(d) /\ d[Len(d)].t = "EW" /\ ItemsFine(t.it)
                 /\ \A i \in t.i .. Len(d) - 1 :
                       d[i].t = "RL" /\ {d[i].id, d[i].to} \subseteq Range(IdsOf(t.it)) /\ Given(d[i].p) \subseteq RelKeys
WorldOfDoc(d) ==
  LET t  == TreeAt(d, 6, "", TRUE)
      rs == RelToks(d, t.i)
  IN [meta |-> [version |-> d[2].n, id |-> d[3].id, name |-> d[4].id, expanded |-> d[5].id],
      attr |-> AttrOfIt(t.it), par |-> ParOfIt(t.it),
      rel |-> [pr \in {<<rs[k].id, rs[k].to>> : k \in DOMAIN rs} |->
                 Put(Rel0, rs[CHOOSE k \in DOMAIN rs : <<rs[k].id, rs[k].to>> = pr].p)]]
\* Texts about which nothing is said: a world whose tree has an item at its root (the language allows it), or in which
\* a relationship occurs twice.
Unspoken(d) == IsWorldDoc(d) /\ (d[7].t = "IT" \/ ~Distinct([k \in DOMAIN d |-> IF d[k].t = "RL" THEN <<d[k].id, d[k].to>> ELSE <<k>>]))

-----------------------------------------------------------------------------
(* The text of one item, and of one relationship of the world w. *)
IsItemDoc(d)   == Len(d) = 1 /\ d[1].t = "IT" /\ d[1].id # "" /\ Given(d[1].p) \subseteq ItemKeys /\ ValidItem(d[1].p)
ItemOfDoc(d)   == [id |-> d[1].id, a |-> Put(Item0, d[1].p)]
IsRelDoc(d, w) == Len(d) = 1 /\ d[1].t = "RL" /\ {d[1].id, d[1].to} \subseteq Ids(w) /\ Given(d[1].p) \subseteq RelKeys
RelOfDoc(d)    == [from |-> d[1].id, to |-> d[1].to, a |-> Put(Rel0, d[1].p)]

-----------------------------------------------------------------------------
(* Writing. *)
ParamsOf(rec, keys) == LET q == SelectSeq(keys, LAMBDA k : IF k \in {"external", "async"} THEN rec[k] ELSE rec[k] # "")
                       IN [i \in DOMAIN q |-> <<q[i], IF q[i] \in {"external", "async"} THEN "true" ELSE rec[q[i]]>>]
RECURSIVE WriteNode(_, _), WriteAll(_, _)
WriteNode(w, x) == <<Tk("TO"), IF x = "" THEN Tk("NI") ELSE TkI(x, ParamsOf(w.attr[x], <<"type", "name", "mechanism", "expanded", "external">>)), Tk("OP")>>
                   \o WriteAll(w, SetToSeq(Children(w, x))) \o <<Tk("CL")>>
WriteAll(w, xs) == IF xs = <<>> THEN <<>> ELSE WriteNode(w, Head(xs)) \o WriteAll(w, Tail(xs))
WriteWorld(w) == <<Tk("BW"), TkN(w.meta.version), TkS("ID", w.meta.id), TkS("NM", w.meta.name), TkS("EX", w.meta.expanded)>>
                 \o WriteNode(w, "")
                 \o [k \in 1 .. Cardinality(Pairs(w)) |->
                       LET pr == SetToSeq(Pairs(w))[k] IN TkR(pr[1], pr[2], ParamsOf(w.rel[pr], <<"verb", "mechanism", "async", "expanded">>))]
                 \o <<Tk("EW")>>
WriteItem(x, rec)    == <<TkI(x, ParamsOf(rec, <<"type", "name", "mechanism", "expanded", "external">>))>>
WriteRel(x, y, rec)  == <<TkR(x, y, ParamsOf(rec, <<"verb", "mechanism", "async", "expanded">>))>>
WriteTree(t) == IF t.root = "" THEN WriteNode(t, "") ELSE WriteNode(t, t.root)
=============================================================================
