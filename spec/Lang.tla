------------------------------- MODULE Lang -------------------------------
(***************************************************************************)
(* The command language: what every command means, and the ways to spell   *)
(* it.  The instance enumerates every command of a small universe in every *)
(* style of writing; LangTrace.tla checks what the real parser made of     *)
(* each text.  It also enumerates texts that are near commands but are     *)
(* none, each of which must be refused (checked with Trace.tla, C11).      *)
(***************************************************************************)
EXTENDS World, TLC, Json

-----------------------------------------------------------------------------
(* Meaning: what parsing a command has to yield.                            *)

RT(c) == IF c.k = "world" THEN "world"
         ELSE IF c.k \in RelMut \cup {"rel.fetch", "rel.list", "rel.exists", "to?", "from?"} THEN "rel" ELSE "item"
VerbOf(c) ==
  CASE c.k \in {"item.create", "rel.create"} -> "create"
    [] c.k \in {"item.set", "rel.set"}       -> "set"
    [] c.k \in {"item.clear", "rel.clear"}   -> "clear"
    [] c.k \in {"item.delete", "rel.delete"} -> "delete"
    [] c.k \in {"item.cof", "rel.cof"}       -> "create-or-fetch"
    [] c.k \in {"item.cos", "rel.cos"}       -> "create-or-set"
    [] c.k \in {"item.fetch", "rel.fetch", "world"} -> "fetch"
    [] c.k \in {"item.list", "rel.list", "item.in"} -> "list"
    [] c.k \in {"item.exists", "rel.exists"} -> "exists"
    [] OTHER -> c.k
\* An attribute written more than once takes its last value.
LastOf(p) == {<<k, p[CHOOSE i \in DOMAIN p : p[i][1] = k /\ \A j \in DOMAIN p : p[j][1] = k => j <= i][2]>> : k \in Given(p)}
TwoIds == RelMut \cup {"rel.fetch", "rel.exists", "in?"}
Meaning(c, fl) ==
  [rt     |-> RT(c),
   verb   |-> VerbOf(c),
   id     |-> IF c.k \in TreeMut \cup {"item.list", "rel.list", "world"} THEN "" ELSE c.id,
   ids    |-> IF c.k \in TreeMut THEN c.ids ELSE <<>>,
   sec    |-> IF c.k \in TwoIds \cup {"nest"} THEN <<c.to>> ELSE <<>>,
   params |-> LastOf(c.p) \cup (IF c.lim > 0 THEN {<<"limit", ToString(c.lim)>>} ELSE {}),
   flags  |-> fl,
   comp   |-> c.k = "item.in"]

-----------------------------------------------------------------------------
(* Spelling.  A style is                                                    *)
(*   lead, sep, trail : white space before, between and after the words     *)
(*   plural : the plural resource word;  alt : the "item?" form of exists   *)
(*   qid, qval : identifiers and values are quoted even if they need not be *)
(*   dash : the dashes of a flag                                            *)

NeedsQuotesId  == {"b c", "in", "a::b", "item x", ""}
NeedsQuotesVal == {"p q", "a=b; c", "", "200 ok", " x "}
Q(s) == "\"" \o s \o "\""
Id(s, y)  == IF y.qid \/ s \in NeedsQuotesId THEN Q(s) ELSE s
Val(k, v, y) == IF k \in {"type", "external", "async"} THEN v ELSE IF y.qval \/ v \in NeedsQuotesVal THEN Q(v) ELSE v
Noun(s, y) == IF y.plural THEN s \o "s" ELSE s
Sets(p, y) == [i \in DOMAIN p |-> p[i][1] \o "=" \o Val(p[i][1], p[i][2], y)]
KeysOf(p)  == [i \in DOMAIN p |-> p[i][1]]

Words(c, fl, y) ==
  LET n   == Noun(RT(c), y)
      two == <<Id(c.id, y), Id(c.to, y)>>
      lim == IF c.lim > 0 THEN <<ToString(c.lim)>> ELSE <<>>
      body ==
        CASE c.k \in {"item.create", "item.set"}  -> <<n, VerbOf(c), Id(c.id, y)>> \o Sets(c.p, y)
          [] c.k = "item.clear"                   -> <<n, "clear", Id(c.id, y)>> \o KeysOf(c.p)
          [] c.k \in {"item.delete", "item.fetch"} -> <<n, VerbOf(c), Id(c.id, y)>>
          [] c.k = "item.exists"                  -> IF y.alt THEN <<"item?", Id(c.id, y)>> ELSE <<n, "exists", Id(c.id, y)>>
          [] c.k = "item.in"                      -> <<n, "in", Id(c.id, y)>>
          [] c.k \in {"item.list", "rel.list"}    -> <<n, "list">> \o lim
          [] c.k \in {"item.cof", "item.cos"}     -> <<n, Id(c.id, y)>> \o Sets(c.p, y)
          [] c.k \in {"rel.create", "rel.set"}    -> <<n, VerbOf(c)>> \o two \o Sets(c.p, y)
          [] c.k = "rel.clear"                    -> <<n, "clear">> \o two \o KeysOf(c.p)
          [] c.k \in {"rel.delete", "rel.fetch"}  -> <<n, VerbOf(c)>> \o two
          [] c.k = "rel.exists"                   -> (IF y.alt THEN <<"rel?">> ELSE <<n, "exists">>) \o two
          [] c.k \in {"rel.cof", "rel.cos"}       -> <<n>> \o two \o Sets(c.p, y)
          [] c.k \in {"to?", "from?"}             -> <<c.k, Id(c.id, y)>>
          [] c.k = "in?"                          -> <<"in?">> \o two
          [] c.k = "nest"                         -> <<"nest">> \o [i \in DOMAIN c.ids |-> Id(c.ids[i], y)] \o <<"in", Id(c.to, y)>>
          [] c.k = "free"                         -> <<"free">> \o [i \in DOMAIN c.ids |-> Id(c.ids[i], y)]
          [] OTHER                                -> <<"world">>
  IN body \o [i \in DOMAIN fl |-> y.dash \o fl[i]]

RECURSIVE Join(_, _)
Join(ws, sep) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Join(Tail(ws), sep)
Spell(c, fl, y) == y.lead \o Join(Words(c, fl, y), y.sep) \o y.trail

-----------------------------------------------------------------------------
(* The universe.                                                            *)

CONSTANTS LIds, LSeps, Deep      \* identifiers, separators, and whether all combinations of style are taken
SomeSeps == {" ", "\t \n"}
ManySeps == {" ", "  ", "\t", "\r\n"}
C(k, id, to, ids, p, lim) == [k |-> k, id |-> id, to |-> to, ids |-> ids, p |-> p, lim |-> lim, strict |-> FALSE]
IPs == {<<<<"name", "x">>>>, <<<<"name", "p q">>, <<"type", "person">>, <<"name", "v-1">>>>, <<<<"external", "true">>, <<"expanded", "a=b; c">>, <<"mechanism", "">>>>,
        <<<<"type", "code">>, <<"external", "false">>, <<"type", "queue">>>>, <<<<"mechanism", "200 ok">>, <<"name", "item">>, <<"expanded", " x ">>>>}
RPs == {<<<<"verb", "x">>>>, <<<<"verb", "p q">>, <<"async", "true">>, <<"verb", "v-1">>>>, <<<<"async", "false">>, <<"expanded", "a=b; c">>, <<"mechanism", "">>>>,
        <<<<"mechanism", "200 ok">>, <<"expanded", "item">>, <<"verb", " x ">>>>}
Ks(p) == [i \in DOMAIN p |-> <<p[i][1], "">>]
LCmds ==
       {C(k, x, "", <<>>, p, 0) : k \in {"item.create", "item.set", "item.cos"}, x \in LIds, p \in IPs}
  \cup {C("item.clear", x, "", <<>>, Ks(p), 0) : x \in LIds, p \in IPs}
  \cup {C(k, x, "", <<>>, <<>>, 0) : k \in {"item.create", "item.cof", "item.delete", "item.fetch", "item.exists", "item.in", "to?", "from?"}, x \in LIds}
  \cup {C(k, "", "", <<>>, <<>>, n) : k \in {"item.list", "rel.list"}, n \in {0, 7, 120}}
  \cup {C("world", "", "", <<>>, <<>>, 0)}
  \cup {C(k, x, z, <<>>, p, 0) : k \in {"rel.create", "rel.set", "rel.cos"}, x, z \in LIds, p \in RPs}
  \cup {C("rel.clear", x, z, <<>>, Ks(p), 0) : x, z \in LIds, p \in RPs}
  \cup {C(k, x, z, <<>>, <<>>, 0) : k \in {"rel.create", "rel.cof", "rel.delete", "rel.fetch", "rel.exists", "in?"}, x, z \in LIds}
  \cup {C("nest", "", z, <<x>>, <<>>, 0) : x, z \in LIds} \cup {C("nest", "", z, <<x, v>>, <<>>, 0) : x, v, z \in LIds}
  \cup {C("free", "", "", <<x>>, <<>>, 0) : x \in LIds} \cup {C("free", "", "", <<x, v, z>>, <<>>, 0) : x, v, z \in LIds}
Flags == {<<>>, <<"strict">>, <<"verbose">>, <<"ids">>, <<"ids", "strict">>, <<"strict", "verbose", "ids">>}
Sty(lead, sep, trail, plural, alt, qid, qval, dash) ==
  [lead |-> lead, sep |-> sep, trail |-> trail, plural |-> plural, alt |-> alt, qid |-> qid, qval |-> qval, dash |-> dash]
B == BOOLEAN
Plain == Sty("", " ", "", FALSE, FALSE, FALSE, FALSE, "--")
\* Every separator with every quoting; every flag list with every dash; every frame of white space; every resource word.
Styles == IF Deep THEN {Sty(l, s, t, p, a, i, v, d) : l \in {"", " \t"}, s \in LSeps, t \in {"", "\n"}, p, a, i, v \in B, d \in {"-", "--"}}
          ELSE {Sty("", s, "", FALSE, FALSE, i, v, "--") : s \in LSeps, i, v \in B}
               \cup {Sty("\n ", " ", "\r\n", p, a, FALSE, v, "-") : p, a, v \in B}

-----------------------------------------------------------------------------
(* Texts that are no commands: a command with one thing wrong.              *)

BadWord == {";", ".", "#", "stric", "--strictly=1", "name=", "\"a", "a\"", "=", "type=alien", "external=maybe", "$$$$", "{"}
DropLast(s) == SubSeq(s, 1, Len(s) - 1)
\* Without the last identifier (where one is required).
Lacking(c) == IF c.k \in {"item.delete", "item.fetch", "item.exists", "item.in", "to?", "from?", "in?", "rel.delete", "rel.fetch", "rel.exists", "rel.cof", "nest"}
              THEN {Join(DropLast(Words(c, <<>>, Plain)), " ")} ELSE {}
\* With attributes of the other kind of thing, or no attribute named where one must be.
Foreign(c) == IF c.k \in {"item.create", "item.set", "item.cos", "item.clear"}
              THEN {Spell(c, <<>>, Plain) \o (IF c.k = "item.clear" THEN " verb" ELSE " verb=x"), Spell(c, <<>>, Plain) \o (IF c.k = "item.clear" THEN " async" ELSE " async=true")}
              ELSE IF c.k \in {"rel.create", "rel.set", "rel.cos", "rel.clear"}
              THEN {Spell(c, <<>>, Plain) \o (IF c.k = "rel.clear" THEN " name" ELSE " name=x"), Spell(c, <<>>, Plain) \o (IF c.k = "rel.clear" THEN " type" ELSE " type=code")}
              ELSE {}
\* (One more word is one more identifier of nest and free.)
Trailing(c) == {Spell(c, <<>>, Plain) \o " " \o b : b \in IF c.k \in TreeMut THEN BadWord \ {"stric"} ELSE BadWord}
               \cup {Spell(c, <<>>, Plain) \o b : b \in {";", ".", "#"}}
Bads == UNION {Lacking(c) \cup Foreign(c) \cup Trailing(c) : c \in LCmds}
        \cup {"", " ", "hello", "items", "rels", "nest a", "nest in b", "free", "create a", "set a name=x", "item clear a", "rel clear a b", "200 ok", "$$$$ 200 ok",
              "tree{nil::[]}", "item create", "rel create a", "item set", "world a", "ITEM list", "Item a", "list", "undo", "redo", "exists a", "in a b", "item list many"}

VARIABLE case
Init == \/ \E c \in LCmds, y \in Styles : case = [e |-> "parse", c |-> c, fl |-> <<>>, txt |-> Spell(c, <<>>, y)]
        \/ \E c \in LCmds, f \in Flags, d \in {"-", "--"} : case = [e |-> "parse", c |-> c, fl |-> f, txt |-> Spell(c, f, [Plain EXCEPT !.dash = d])]
        \/ \E t \in Bads : case = [e |-> "bad", txt |-> t]
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case
Emit == PrintT("EDGE " \o ToJson(case))
\* Different spellings have one meaning: the meaning does not mention the style, and determines the command.
OneMeaning == case.e = "parse" => Meaning(case.c, case.fl).verb # ""
=============================================================================
