-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded behaviours of the real code against World.tla.          *)
(*                                                                         *)
(* Traces is a sequence of recorded runs.  Every step has the operation    *)
(* performed, the reply, and what every read view of the world showed      *)
(* afterwards.  TLC follows each run, keeping the history the              *)
(* specification prescribes (log: step numbers of the commands, pos), and  *)
(* checks one invariant per property.                                      *)
(***************************************************************************)
EXTENDS Read

VARIABLES log,     \* step numbers of the commands in the history
          pos,     \* how many of them make up the current world
          was      \* pos before the latest step
vars == <<tr, l, log, pos, was>>

V(i) == IF i = 0 THEN T.init ELSE T.s[i].post

Init == tr \in 1 .. Len(Traces) /\ l = 0 /\ log = <<>> /\ pos = 0 /\ was = 0
Entered(s) == s.e \in {"cmd", "raw"} /\ s.st # 400 /\ s.crash = ""
Next == /\ l < Len(T.s)
        /\ l' = l + 1 /\ tr' = tr /\ was' = pos
        /\ LET s == S(l + 1)
           IN CASE Entered(s)     -> log' = Append(SubSeq(log, 1, pos), l + 1) /\ pos' = pos + 1
                [] s.e = "undo"   -> log' = log /\ pos' = IF pos > 0 THEN pos - 1 ELSE 0
                [] s.e = "redo"   -> log' = log /\ pos' = IF pos < Len(log) THEN pos + 1 ELSE pos
                [] s.e = "reload" -> log' = <<>> /\ pos' = 0
                [] OTHER          -> log' = log /\ pos' = pos
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a step must satisfy.  o is made into the form World!Answers expects.*)

Obj(o) == [kind |-> o.kind, n |-> o.n, items |-> Range(o.items), rels |-> Range(o.rels), val |-> o.val,
           w |-> IF o.kind = "world" THEN W(o.w) ELSE 0]
ObjNoDup(o) == NoDup(o.items, KeyI) /\ NoDup(o.rels, KeyR)

IsCmd(s) == s.e = "cmd"
IsApi(s) == s.e = "api"
Live(s)  == s.crash = ""
Status(s, ok) == IF ok THEN s.st = 200 ELSE s.st >= 400

\* The step l is one whose start was as it should be, so that what it did can be judged.
Judged == l > 0 /\ Sound(V(l - 1))

\* A command took exactly the effect it should have, and said so.
Took(s) == /\ Live(s)
           /\ LET pre == W(V(l - 1))
                  r == Effect(pre, s.c)
              IN /\ Consistent(s.post) /\ W(s.post) = r.w
                 /\ Status(s, r.ok)
                 /\ r.ok => Answers(Obj(s.o), r.w, s.c) /\ ObjNoDup(s.o)
\* The same for a call of the API.  Creating something that exists is not an error there when the
\* attributes agree; when they differ the call may say so.
ApiAnswers(o, w, c, existed) ==
  CASE c.k \in {"item.create", "item.set"} -> ShowsItems(o, w, {c.id})
    [] c.k \in {"rel.create", "rel.set"}   -> ShowsRels(o, w, {Pair(c)})
    [] c.k \in {"nest", "free"}            -> ShowsItems(o, w, {c.ids[1]})
    [] OTHER -> TRUE
ApiTook(s) ==
  /\ Live(s)
  /\ LET pre == W(V(l - 1))
         r == ApiEffect(pre, s.c)
         existed == \/ s.c.k = "item.create" /\ s.c.id \in Ids(pre)
                    \/ s.c.k = "rel.create" /\ Pair(s.c) \in Pairs(pre)
     IN /\ Consistent(s.post) /\ W(s.post) = r.w
        /\ ~existed => s.err = ~r.ok
        /\ existed /\ s.err => ~Matches(IF s.c.k = "item.create" THEN pre.attr[s.c.id] ELSE pre.rel[Pair(s.c)], s.c.p)
        /\ r.ok => ApiAnswers(Obj(s.o), r.w, s.c, existed)
\* Queries through the API.
ApiQueryTook(s) ==
  /\ Live(s) /\ Unchanged(V(l - 1), s.post)
  /\ LET w == W(s.post)
         o == Obj(s.o)
         c == s.c
     IN /\ ObjNoDup(s.o)
        /\ CASE c.k = "item.fetch" -> s.err = (c.id \notin Ids(w)) /\ (~s.err => ShowsItems(o, w, {c.id}))
             [] c.k = "item.list"  -> ShowsSomeItems(o, w, Counted(Cardinality(Ids(w)), c.lim))
             [] c.k = "rel.list"   -> ShowsSomeRels(o, w, Counted(Cardinality(Pairs(w)), c.lim))
             [] c.k = "item.in"    -> s.err = (c.id \notin Ids(w)) /\ ShowsItems(o, w, IF s.err THEN {} ELSE Children(w, c.id))
             [] c.k = "in?"        -> ShowsBool(o, Contained(w, c.id, c.to, c.strict))
             [] c.k = "rel.fetch"  -> ShowsRels(o, w, RelsBetween(w, c.id, c.to, c.strict))
             [] c.k = "to?"        -> ShowsRels(o, w, RelsTo(w, c.id, c.strict))
             [] c.k = "from?"      -> ShowsRels(o, w, RelsFrom(w, c.id, c.strict))
             [] OTHER -> FALSE

\* The obligation of a command or call whose kind is in ks.
Obliged(ks) == LET s == S(l)
               IN /\ IsCmd(s) /\ s.c.k \in ks => Took(s)
                  /\ IsApi(s) /\ s.c.k \in ks => IF s.c.k \in ApiMutators \cup ApiMeta THEN ApiTook(s) ELSE ApiQueryTook(s)
ExistedBefore(s) == IF s.c.k \in RelMut THEN Pair(s.c) \in Pairs(W(V(l - 1))) ELSE s.c.id \in Ids(W(V(l - 1)))

-----------------------------------------------------------------------------
(* The properties.                                                          *)

NoCrash(ks) == l > 0 => (S(l).crash # "" => S(l).c.k \notin ks)

C01 == /\ Live(IF l = 0 THEN [crash |-> ""] ELSE S(l)) => PlacesOk(V(l))
       /\ NoCrash(TreeMut \cup {"item.delete"})
C02 == /\ Live(IF l = 0 THEN [crash |-> ""] ELSE S(l)) => RelsOk(V(l))
       /\ NoCrash(RelMut)
       /\ (Judged /\ Live(S(l)) /\ S(l).e \in {"cmd", "api"}) =>
            LET pre == W(V(l - 1))
                post == RelOf(R(S(l).post.r[1]))
                c == S(l).c
                touched == IF c.k \in RelMut THEN {Pair(c)}
                           ELSE IF c.k = "item.delete" THEN {pr \in Pairs(pre) : c.id \in {pr[1], pr[2]}} ELSE {}
            IN \A pr \in (Pairs(pre) \cup DOMAIN post) \ touched :
                  pr \in Pairs(pre) /\ pr \in DOMAIN post /\ pre.rel[pr] = post[pr]
C03 == Judged => /\ Obliged({"item.create", "item.cof", "rel.create", "rel.cof"})
                 /\ S(l).e = "cmd" /\ S(l).c.k \in {"item.cos", "rel.cos"} /\ ~ExistedBefore(S(l)) => Took(S(l))
C04 == Judged => /\ Obliged({"item.set", "item.clear", "rel.set", "rel.clear"})
                 /\ S(l).e = "cmd" /\ S(l).c.k \in {"item.cos", "rel.cos"} /\ ExistedBefore(S(l)) => Took(S(l))
C05 == Judged => Obliged(TreeMut)
C06 == Judged => Obliged({"item.delete", "rel.delete"})
C07 == Live(IF l = 0 THEN [crash |-> ""] ELSE S(l)) => Consistent(V(l))
\* The observations are made by queries too, so they have to agree.
C08 == /\ Live(IF l = 0 THEN [crash |-> ""] ELSE S(l)) => Consistent(V(l))
       /\ (l > 0 /\ Readable(V(l - 1))) =>
            LET s == S(l)
            IN /\ IsCmd(s) /\ s.c.k \in Queries =>
                    /\ Live(s) /\ Unchanged(V(l - 1), s.post)
                    /\ LET w == W(s.post)
                           r == Effect(w, s.c)
                       IN Status(s, r.ok) /\ (r.ok => Answers(Obj(s.o), w, s.c) /\ ObjNoDup(s.o))
               /\ IsApi(s) /\ s.c.k \in Queries => ApiQueryTook(s)

\* Undo: judged when the world is as it was right after the command being undone.
Undone == log[was]
C09 == (Judged /\ S(l).e = "undo") =>
         IF was = 0 THEN Live(S(l)) /\ ~S(l).err /\ Unchanged(V(l - 1), S(l).post)
         ELSE (Sound(V(Undone - 1)) /\ W(V(l - 1)) = W(V(Undone))) =>
                /\ Live(S(l)) /\ ~S(l).err
                /\ Consistent(S(l).post)
                /\ W(S(l).post) = W(V(Undone - 1))
\* History.
HistoryOk == LET s == S(l)
             IN /\ s.hist = [i \in 1 .. pos |-> S(log[i]).txt]
                /\ s.cu = (pos > 0) /\ s.cr = (pos < Len(log))
C10 == (l > 0 /\ T.mode = "app" /\ ~(\E i \in 1 .. l : S(i).e = "api")) =>
         /\ Live(S(l)) => HistoryOk
         /\ S(l).e \in {"undo", "redo"} => Live(S(l))
         /\ (S(l).e = "undo" /\ was > 0 /\ Judged) =>
              ((Sound(V(Undone - 1)) /\ W(V(l - 1)) = W(V(Undone))) => W(S(l).post) = W(V(Undone - 1)))
         /\ (S(l).e = "redo" /\ Judged) =>
              IF was = pos THEN Unchanged(V(l - 1), S(l).post)
              ELSE (Sound(V(log[pos])) /\ W(V(l - 1)) = W(V(log[pos] - 1))) =>
                     Consistent(S(l).post) /\ W(S(l).post) = W(V(log[pos]))
\* Refusals.
C11 == l > 0 =>
         /\ Live(S(l))
         /\ (S(l).e = "raw" /\ S(l).inv) => S(l).st = 400
         /\ (S(l).e = "raw" \/ S(l).e = "cmd") /\ S(l).st = 400 => Unchanged(V(l - 1), S(l).post)
         /\ (T.mode = "app" /\ S(l).e = "raw" /\ S(l).st = 400) => HistoryOk
         /\ (Judged /\ S(l).e \in {"cmd", "raw"} /\ S(l).st # 200 /\ ~(S(l).e = "raw" \/ (S(l).c.k \in TreeMut /\ Len(S(l).c.ids) > 1))) =>
              Unchanged(V(l - 1), S(l).post)
         /\ (Judged /\ S(l).e = "api" /\ S(l).err) => Unchanged(V(l - 1), S(l).post)
         \* it keeps working afterwards
         /\ (Judged /\ l > 1 /\ S(l).e = "cmd" /\ S(l - 1).e \in {"cmd", "raw"} /\ S(l - 1).st >= 400) => Took(S(l))
\* Replies.
Codes == {400, 404, 409, 450, 500, 502, 600}
KindType(k) == CASE k \in {"items"} -> {"item"} [] k = "blank" -> {"item", "rel"} [] k = "rels" -> {"rel"} [] k = "world" -> {"world"}
                 [] k = "empty" -> {""} [] k = "bool" -> {"ids", "bool"} [] OTHER -> {}
ReplyOk(s) == /\ s.st = s.pst
              /\ IF s.st = 200
                 THEN /\ s.pstmt = "Response" /\ s.pty \in KindType(s.o.kind)
                      /\ s.o.kind \in {"items", "rels"} => s.pn = s.o.n
                 ELSE /\ s.st \in Codes /\ s.pstmt = "Status" /\ s.o.kind = "none" /\ s.msg # "" /\ s.pmsg = s.msg
C12 == (l > 0 /\ T.mode = "app" /\ S(l).e \in {"cmd", "raw"} /\ Live(S(l))) =>
         /\ ReplyOk(S(l))
         /\ (Readable(V(l - 1)) /\ S(l).e = "cmd") =>
              LET r == Effect(W(V(l - 1)), S(l).c)
              IN /\ Status(S(l), r.ok)
                 /\ (r.ok /\ Readable(S(l).post)) => Answers(Obj(S(l).o), W(S(l).post), S(l).c) /\ ObjNoDup(S(l).o)
\* Text.
C13 == (l > 0 /\ Readable(V(l - 1)) /\ S(l).e = "reload") =>
         /\ Live(S(l)) /\ ~S(l).err
         /\ S(l).old = V(l - 1)
         /\ Consistent(S(l).post) /\ W(S(l).post) = W(V(l - 1))
         /\ S(l).o.val
\* Description setters (used with C13).
C13m == Judged => Obliged(ApiMeta)
\* What a command means does not depend on its spelling: with C18, every command has its effect.
C18x == (Judged /\ S(l).e = "cmd") => S(l).st # 400 /\ Took(S(l))
=============================================================================
