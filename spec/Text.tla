-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts of worlds and trees being damaged: from the text written for a    *)
(* world or tree, tokens are dropped, doubled, swapped, put in or cut off. *)
(* TLC enumerates the texts reached in at most DEdits edits, checks what   *)
(* Doc.tla says about them, and prints each for the real readers.          *)
(***************************************************************************)
EXTENDS Doc, TLC, Json

CONSTANTS DIds, DMaxRels, DEdits, DKind,   \* DKind: "world" or "tree"
          DJunk                            \* texts put in

VARIABLES doc, edits
vars == <<doc, edits>>

Pars  == {<<>>, <<<<"name", "n">>, <<"external", "true">>>>}
Metas == {[version |-> 1, id |-> "w", name |-> "w", expanded |-> ""], [version |-> 12, id |-> "w 1", name |-> "", expanded |-> "e"]}
Forests(S) == {f \in [S -> S \cup {""}] : IsForest([attr |-> [x \in S |-> 0], par |-> f])}
Rels(S) == {R \in SUBSET (S \X S) : Cardinality(R) <= DMaxRels}
First(S) == CHOOSE x \in S : TRUE
Worlds0 == UNION {UNION {{[meta |-> m, attr |-> [x \in S |-> IF S # {} /\ x = First(S) THEN Put(Item0, p) ELSE Item0], par |-> f,
                    rel |-> [pr \in R |-> IF p = <<>> THEN Rel0 ELSE Put(Rel0, <<<<"verb", "v">>>>)]] : p \in Pars, m \in Metas, R \in Rels(S)}
               : f \in Forests(S)} : S \in SUBSET DIds}
Trees0 == {TSub(TOfWorld(w), x) : w \in {v \in Worlds0 : v.rel = None}, x \in {""}} \cup
          UNION {{TSub(TOfWorld(w), x) : x \in Ids(w)} : w \in {v \in Worlds0 : v.rel = None}}

\* One item or relationship with each choice of its attributes.
Item1 == {[name |-> n, type |-> t, mechanism |-> m, expanded |-> e, external |-> b] :
            n \in {"", "n"}, t \in {"", "code", "person"}, m \in {"", "m"}, e \in {"", "e"}, b \in BOOLEAN}
Rel1  == {[verb |-> n, mechanism |-> m, async |-> b, expanded |-> e] : n \in {"", "v"}, m \in {"", "m"}, b \in BOOLEAN, e \in {"", "e"}}
World1 == [meta |-> [version |-> 1, id |-> "w", name |-> "w", expanded |-> ""], attr |-> [x \in DIds |-> Item0], par |-> [x \in DIds |-> ""], rel |-> None]
Ones == {WriteItem(x, a) : x \in DIds, a \in Item1} \cup {WriteRel(x, y, a) : x \in DIds, y \in DIds \cup {"z"}, a \in Rel1}

Raw  == {TkS("RAW", s) : s \in DJunk}
New  == Raw \cup {Tk("BW"), TkN(2), Tk("TO"), Tk("NI"), Tk("OP"), Tk("CL"), Tk("EW"), TkI(First(DIds), <<>>), TkI("z", <<>>),
                  TkR(First(DIds), "z", <<>>), TkS("ID", "x")}
DropAt(i)    == doc' = SubSeq(doc, 1, i - 1) \o SubSeq(doc, i + 1, Len(doc))
DoubleAt(i)  == doc' = SubSeq(doc, 1, i) \o SubSeq(doc, i, Len(doc))
SwapAt(i)    == i < Len(doc) /\ doc' = [doc EXCEPT ![i] = doc[i + 1], ![i + 1] = doc[i]]
CutAt(i)     == doc' = SubSeq(doc, 1, i - 1)
StartAt(i)   == i > 1 /\ doc' = SubSeq(doc, i, Len(doc))
PutAt(i, k)  == doc' = SubSeq(doc, 1, i - 1) \o <<k>> \o SubSeq(doc, i, Len(doc))
SubtreeAt(i, x) == doc' = SubSeq(doc, 1, i - 1) \o <<Tk("TO"), x, Tk("OP"), Tk("CL")>> \o SubSeq(doc, i, Len(doc))

Init == doc \in (IF DKind = "world" THEN {WriteWorld(w) : w \in Worlds0} ELSE IF DKind = "tree" THEN {WriteTree(t) : t \in Trees0} ELSE Ones) /\ edits = 0
Next == /\ edits < DEdits /\ edits' = edits + 1
        /\ \/ \E i \in DOMAIN doc : DropAt(i) \/ DoubleAt(i) \/ SwapAt(i) \/ CutAt(i) \/ StartAt(i)
           \/ \E i \in 1 .. Len(doc) + 1 : (\E k \in New : PutAt(i, k)) \/ (\E x \in {TkI(First(DIds), <<>>), TkI("z", <<>>), Tk("NI")} : SubtreeAt(i, x))
        /\ doc' # <<>>
Spec == Init /\ [][Next]_vars
View == doc
Show == PrintT("EDGE " \o ToJson([f |-> 0, t |-> 0, c |-> doc]))

-----------------------------------------------------------------------------
WritesAreComplete == edits = 0 => IF DKind = "world" THEN IsWorldDoc(doc) /\ ~IsTreeDoc(doc) ELSE IF DKind = "tree" THEN IsTreeDoc(doc) /\ ~IsWorldDoc(doc)
                                   ELSE /\ ~IsTreeDoc(doc) /\ ~IsWorldDoc(doc)
                                        /\ IsItemDoc(doc) # (doc[1].t = "RL")
                                        /\ IsRelDoc(doc, World1) = (doc[1].t = "RL" /\ doc[1].to # "z")
\* A complete text describes a world; writing that world gives a complete text that describes the same world.
ReadWriteRead ==
  /\ IsWorldDoc(doc) /\ ~Unspoken(doc) => LET w == WorldOfDoc(doc)
                        IN WellFormed(w) /\ IsWorldDoc(WriteWorld(w)) /\ WorldOfDoc(WriteWorld(w)) = w
  /\ IsTreeDoc(doc) => LET t == TreeOfDoc(doc)
                       IN TreeForest(t) /\ IsTreeDoc(WriteTree(t)) /\ TreeOfDoc(WriteTree(t)) = t
  /\ IsItemDoc(doc) => LET i == ItemOfDoc(doc) IN ItemOfDoc(WriteItem(i.id, i.a)) = i
  /\ IsRelDoc(doc, World1) => LET i == RelOfDoc(doc) IN RelOfDoc(WriteRel(i.from, i.to, i.a)) = i
\* No proper initial or final part of a complete text is complete.
NoPart == (IsWorldDoc(doc) \/ IsTreeDoc(doc)) =>
             /\ \A i \in 0 .. Len(doc) - 1 : ~IsWorldDoc(SubSeq(doc, 1, i)) /\ ~IsTreeDoc(SubSeq(doc, 1, i))
             /\ \A i \in 2 .. Len(doc) : ~IsWorldDoc(SubSeq(doc, i, Len(doc)))
=============================================================================
