-------------------------------- MODULE MC --------------------------------
(* Bounded instances of Topolith.tla for exhaustive checking and for generating test walks. *)
EXTENDS Topolith, TLC, TLCExt, Json, IOUtils

CONSTANTS MCIds,      \* item identifiers
          MCItemP,    \* set of item parameter lists
          MCRelP,     \* set of relationship parameter lists
          MCKinds,    \* command kinds in the instance
          MaxLog,     \* bound on the history (0: history is not part of the state)
          MaxRels,    \* bound on the number of relationships
          MaxIds,
          MCLists       \* up to how many items nest and free are given at once

C(k, id, to, ids, p, lim, strict) == [k |-> k, id |-> id, to |-> to, ids |-> ids, p |-> p, lim |-> lim, strict |-> strict]
Clears(ks) == {<<<<x, "">>>> : x \in ks}
Lists == {<<x>> : x \in MCIds} \cup (IF MCLists >= 2 THEN {<<x, y>> : x, y \in MCIds} ELSE {})
            \cup (IF MCLists >= 3 THEN {<<x, y, z>> : x, y, z \in MCIds} ELSE {})
\* Parameter lists used by the instances.
NoP == {}
OneItemP == {<<<<"name", "x">>>>}
ItemP == {<<<<"name", "x">>>>, <<<<"name", "">>, <<"external", "true">>>>, <<<<"type", "code">>, <<"expanded", "y z">>>>,
          <<<<"mechanism", "m">>>>, <<<<"external", "false">>, <<"name", "u">>, <<"name", "x">>>>}
OneRelP == {<<<<"verb", "v">>>>}
RelP == {<<<<"verb", "v">>>>, <<<<"async", "true">>, <<"expanded", "">>>>, <<<<"mechanism", "m">>, <<"verb", "">>>>, <<<<"expanded", "e f">>, <<"async", "false">>>>}

AllCmds ==
       {C(k, x, "", <<>>, p, 0, FALSE) : k \in {"item.create"}, x \in MCIds, p \in MCItemP \cup {<<>>}}
  \cup {C(k, x, "", <<>>, p, 0, FALSE) : k \in {"item.set", "item.cos"}, x \in MCIds, p \in MCItemP}
  \cup {C("item.clear", x, "", <<>>, p, 0, FALSE) : x \in MCIds, p \in Clears(UNION {Given(q) : q \in MCItemP})}
  \cup {C(k, x, "", <<>>, <<>>, 0, FALSE) : k \in {"item.cof", "item.delete", "item.fetch", "item.exists", "item.in"}, x \in MCIds}
  \cup {C("item.list", "", "", <<>>, <<>>, n, FALSE) : n \in 0 .. 2}
  \cup {C("rel.list", "", "", <<>>, <<>>, n, FALSE) : n \in 0 .. 2}
  \cup {C("world", "", "", <<>>, <<>>, 0, FALSE)}
  \cup {C("nest", "", y, xs, <<>>, 0, FALSE) : xs \in Lists, y \in MCIds}
  \cup {C("free", "", "", xs, <<>>, 0, FALSE) : xs \in Lists}
  \cup {C("in?", x, y, <<>>, <<>>, 0, s) : x, y \in MCIds, s \in BOOLEAN}
  \cup {C("rel.create", x, y, <<>>, p, 0, FALSE) : x, y \in MCIds, p \in MCRelP \cup {<<>>}}
  \cup {C(k, x, y, <<>>, p, 0, FALSE) : k \in {"rel.set", "rel.cos"}, x, y \in MCIds, p \in MCRelP}
  \cup {C("rel.clear", x, y, <<>>, p, 0, FALSE) : x, y \in MCIds, p \in Clears(UNION {Given(q) : q \in MCRelP})}
  \cup {C(k, x, y, <<>>, <<>>, 0, FALSE) : k \in {"rel.cof", "rel.delete", "rel.exists"}, x, y \in MCIds}
  \cup {C("rel.fetch", x, y, <<>>, <<>>, 0, s) : x, y \in MCIds, s \in BOOLEAN}
  \cup {C(k, x, "", <<>>, <<>>, 0, s) : k \in {"to?", "from?"}, x \in MCIds, s \in BOOLEAN}
MCCmds == {c \in AllCmds : c.k \in MCKinds}

Bound == /\ Len(log) <= MaxLog
         /\ Cardinality(Pairs(w)) <= MaxRels
         /\ Cardinality(Ids(w)) <= MaxIds

\* Without history: every execution is from the world alone.
ExecW(c) == /\ w' = Effect(w, c).w
            /\ log' = <<[c |-> c, pre |-> w, post |-> w', ok |-> Effect(w, c).ok]>>
            /\ pos' = 1
NextW == \E c \in Cmds : ExecW(c)
SpecW == Init /\ [][NextW]_vars
ViewW == w
BoundW == Cardinality(Pairs(w)) <= MaxRels /\ Cardinality(Ids(w)) <= MaxIds

\* Print every transition of the bounded graph, for the drivers: [from, to, command].
Edge == PrintT("EDGE " \o ToJson([f |-> TLCFP(w), t |-> TLCFP(w'), c |-> log'[pos'].c]))
EdgeInit == TRUE

\* Print the kind of history transitions too: x = executed command, or undo / redo.
HEdge == PrintT("EDGE " \o ToJson(
           [f |-> TLCFP(<<w, log, pos>>), t |-> TLCFP(<<w', log', pos'>>),
            c |-> IF pos' < pos THEN C("undo", "", "", <<>>, <<>>, 0, FALSE)
                  ELSE IF log' = log THEN C("redo", "", "", <<>>, <<>>, 0, FALSE)
                  ELSE log'[pos'].c]))
=============================================================================
