------------------------------ MODULE Topolith ------------------------------
(***************************************************************************)
(* The application: a world, the log of executed commands, and the         *)
(* position in it.  One named action per command kind, plus Undo, Redo,    *)
(* Refuse (input that is not a command) and Reload (write the world as     *)
(* text and read it back).                                                 *)
(***************************************************************************)
EXTENDS World

CONSTANT Cmds        \* the commands of the bounded model

VARIABLES w,         \* the current world
          log,       \* sequence of [c |-> command, pre |-> world before, post |-> world after, ok |-> accepted]
          pos        \* number of entries of log that make up the current world
vars == <<w, log, pos>>

Init == w = EmptyWorld("w") /\ log = <<>> /\ pos = 0

Exec(c) == LET r == Effect(w, c)
           IN /\ w' = r.w
              /\ log' = Append(SubSeq(log, 1, pos), [c |-> c, pre |-> w, post |-> r.w, ok |-> r.ok])
              /\ pos' = pos + 1

ExecKind(ks) == \E c \in Cmds : c.k \in ks /\ Exec(c)

ItemCreateCmd == ExecKind({"item.create", "item.cof"})
ItemSetCmd    == ExecKind({"item.set", "item.cos"})
ItemClearCmd  == ExecKind({"item.clear"})
ItemDeleteCmd == ExecKind({"item.delete"})
NestCmd       == ExecKind({"nest"})
FreeCmd       == ExecKind({"free"})
RelCreateCmd  == ExecKind({"rel.create", "rel.cof"})
RelSetCmd     == ExecKind({"rel.set", "rel.cos"})
RelClearCmd   == ExecKind({"rel.clear"})
RelDeleteCmd  == ExecKind({"rel.delete"})
QueryCmd      == ExecKind(Queries)

Undo == /\ pos > 0
        /\ w' = log[pos].pre
        /\ pos' = pos - 1
        /\ UNCHANGED log
Redo == /\ pos < Len(log)
        /\ w' = Effect(w, log[pos + 1].c).w
        /\ pos' = pos + 1
        /\ UNCHANGED log
\* Input that is not a command, undo with nothing to undo, redo with nothing to redo.
Refuse == UNCHANGED vars
\* Writing the world as text and reading it back yields the same world.
Reload == UNCHANGED vars

Next == \/ ItemCreateCmd \/ ItemSetCmd \/ ItemClearCmd \/ ItemDeleteCmd
        \/ NestCmd \/ FreeCmd
        \/ RelCreateCmd \/ RelSetCmd \/ RelClearCmd \/ RelDeleteCmd
        \/ QueryCmd \/ Undo \/ Redo
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties, stated independently of the effect operators.            *)

\* C01
Forest == IsForest(w)
\* C02
RelsIntact == RefIntact(w)

\* What an executed step's command was (an Exec step is one that appends at pos).
Executed == pos' = pos + 1 /\ Len(log') = pos' /\ w = log'[pos'].pre
Cmd      == log'[pos'].c

SameAttrExcept(xs)  == \A x \in (Ids(w) \cap Ids(w')) \ xs : w'.attr[x] = w.attr[x]
SamePlaceExcept(xs) == \A x \in (Ids(w) \cap Ids(w')) \ xs : w'.par[x] = w.par[x]
SameRelsExcept(prs) == \A pr \in (Pairs(w) \cup Pairs(w')) \ prs :
                          pr \in Pairs(w) /\ pr \in Pairs(w') /\ w'.rel[pr] = w.rel[pr]

\* C03
CreateFrame ==
  [][Executed /\ Cmd.k \in {"item.create", "item.cof"} =>
       /\ SameAttrExcept({}) /\ SamePlaceExcept({}) /\ SameRelsExcept({})
       /\ Ids(w) \subseteq Ids(w') /\ Ids(w') \subseteq Ids(w) \cup {Cmd.id}
       /\ (Cmd.id \in Ids(w') \ Ids(w) => w'.par[Cmd.id] = "")]_vars
RelCreateFrame ==
  [][Executed /\ Cmd.k \in {"rel.create", "rel.cof"} =>
       /\ Ids(w') = Ids(w) /\ SameAttrExcept({}) /\ SamePlaceExcept({})
       /\ SameRelsExcept(IF Pair(Cmd) \in Pairs(w) THEN {} ELSE {Pair(Cmd)})]_vars
\* C04
SetFrame ==
  [][Executed /\ Cmd.k \in {"item.set", "item.clear"} =>
       /\ Ids(w') = Ids(w) /\ SameAttrExcept({Cmd.id}) /\ SamePlaceExcept({}) /\ SameRelsExcept({})
       /\ Cmd.id \in Ids(w) => \A k \in ItemKeys \ Given(Cmd.p) : w'.attr[Cmd.id][k] = w.attr[Cmd.id][k]]_vars
ClearEmpties ==
  [][Executed /\ Cmd.k = "item.clear" /\ Cmd.id \in Ids(w) =>
       \A k \in Given(Cmd.p) : w'.attr[Cmd.id][k] = Item0[k]]_vars
RelSetFrame ==
  [][Executed /\ Cmd.k \in {"rel.set", "rel.clear"} =>
       /\ Ids(w') = Ids(w) /\ SameAttrExcept({}) /\ SamePlaceExcept({}) /\ SameRelsExcept({Pair(Cmd)})
       /\ Pairs(w') = Pairs(w)]_vars
\* C05: only the named items change container, and what is inside them moves along.
NestFrame ==
  [][Executed /\ Cmd.k \in TreeMut =>
       /\ Ids(w') = Ids(w) /\ SameAttrExcept({}) /\ SameRelsExcept({}) /\ SamePlaceExcept(Range(Cmd.ids))
       /\ \A x \in Ids(w) : Subtree(w, x) \ UNION {Subtree(w, y) : y \in Range(Cmd.ids) \ {x}} \subseteq Subtree(w', x)]_vars
\* C06
DeleteHandsUp ==
  [][Executed /\ Cmd.k = "item.delete" =>
       /\ Ids(w') = Ids(w) \ {Cmd.id}
       /\ SameAttrExcept({}) /\ SamePlaceExcept(Children(w, Cmd.id))
       /\ \A y \in Children(w, Cmd.id) : w'.par[y] = w.par[Cmd.id]
       /\ Pairs(w') = {pr \in Pairs(w) : Cmd.id \notin {pr[1], pr[2]}}
       /\ \A pr \in Pairs(w') : w'.rel[pr] = w.rel[pr]]_vars
RelDeleteFrame ==
  [][Executed /\ Cmd.k = "rel.delete" =>
       /\ Ids(w') = Ids(w) /\ SameAttrExcept({}) /\ SamePlaceExcept({})
       /\ Pairs(w') = Pairs(w) \ {Pair(Cmd)} /\ \A pr \in Pairs(w') : w'.rel[pr] = w.rel[pr]]_vars
\* C08
QueriesPure == [][Executed /\ Cmd.k \in Queries => w' = w]_vars
\* C09, C10: the log is a chain of worlds and the current world is the one at pos.
LogChain ==
  /\ pos <= Len(log)
  /\ \A i \in 1 .. Len(log) : log[i].post = Effect(log[i].pre, log[i].c).w
  /\ \A i \in 1 .. Len(log) - 1 : log[i].post = log[i + 1].pre
  /\ IF pos = 0 THEN w = (IF log = <<>> THEN w ELSE log[1].pre) ELSE w = log[pos].post
UndoInverse == [][Executed => log'[pos'].pre = w]_vars
\* C11: a single-target command that is rejected changes nothing.
RejectedUnchanged == [][Executed /\ ~log'[pos'].ok /\ Cmd.k \notin TreeMut => w' = w]_vars
TypeOK == "" \notin Ids(w) /\ \A x \in Ids(w) : w.attr[x].type \in ItemTypes \cup {""}
=============================================================================
