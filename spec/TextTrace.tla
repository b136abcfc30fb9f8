----------------------------- MODULE TextTrace -----------------------------
(* Checks what the real readers of worlds and trees made of texts against Doc.tla. *)
EXTENDS Read, Doc
vars == <<tr, l>>
Init == tr \in 1 .. Len(Traces) /\ l = 0
Next == l < Len(T.s) /\ l' = l + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars

\* e = "doc": the text of the tokens s.toks was read as a world (s.as = "world") or as a tree.
\* e = "parts": the initial, final and middle-cut parts of the text written by the real code for the world or tree
\*      described by s.toks were read; s.bad holds those that were accepted, s.m how many were tried.
\* e = "text": s.txt, known not to be the text of a world (s.kind tells what it is), was read as both.
\* e = "one": the text of the tokens s.toks (or any other text, then s.toks is one RAW token) was read as an item
\*      (s.as = "item") or as a relationship of the world s.v, which is s.v2 afterwards; s.got is what was read, s.ends
\*      the items at its ends.
\* e = "write": the same for the text the real code writes for the item or relationship described by s.toks; s.eq tells
\*      whether it calls what was read equal to what was written.
Right(s) == IF s.as = "world" THEN IsWorldDoc(s.toks) ELSE IsTreeDoc(s.toks)
Refused(s) == s.err /\ s.none

\* C14: what is not one complete world is refused.
C14 == l > 0 => LET s == S(l) IN
  /\ s.crash = ""
  /\ s.e = "doc" /\ s.as = "world" /\ ~IsWorldDoc(s.toks) => Refused(s)
  /\ s.e = "parts" /\ s.as = "world" => s.bad = <<>>
  /\ s.e = "text" /\ s.as = "world" => Refused(s)
\* C13: a complete text is read as the world it describes, and is what writing that world gives.
C13 == l > 0 => LET s == S(l) IN
  s.as = "world" /\ s.e = "doc" /\ IsWorldDoc(s.toks) /\ ~Unspoken(s.toks) =>
    /\ s.crash = "" /\ ~s.err /\ ~s.none
    /\ Sound(s.v) /\ W(s.v) = WorldOfDoc(s.toks)
\* C21: the same for trees.
C21 == l > 0 => LET s == S(l) IN
  s.as = "tree" =>
    /\ s.crash = ""
    /\ s.e = "doc" => IF IsTreeDoc(s.toks)
                      THEN /\ ~s.err /\ ~s.none /\ TreeSound(s.tv) /\ TreeOf(s.tv) = TreeOfDoc(s.toks)
                           /\ s.items # 0 /\ NoDup(A(s.items), KeyI) /\ AttrOf(A(s.items)) = TreeOfDoc(s.toks).attr
                      ELSE s.err
    /\ s.e = "parts" => s.bad = <<>>
    /\ s.e = "text" => s.err
\* C23: the text of an item or relationship is read as exactly that; other text is refused; reading changes nothing.
C23 == l > 0 => LET s == S(l) IN
  s.e \in {"one", "write"} =>
    /\ s.crash = ""
    /\ Readable(s.v) => s.v2 = s.v
    /\ s.e = "write" /\ s.as = (IF s.toks[1].t = "IT" THEN "item" ELSE "rel") => ~s.err /\ s.eq
    /\ s.as = "item" => IF IsItemDoc(s.toks) THEN ~s.err /\ A(s.got) = <<ItemOfDoc(s.toks)>> ELSE s.err
    /\ s.as = "rel" /\ Readable(s.v) =>
         LET w == W(s.v)
         IN IF IsRelDoc(s.toks, w)
            THEN /\ ~s.err /\ R(s.got) = <<RelOfDoc(s.toks)>>
                 /\ Range(A(s.ends)) = {[id |-> x, a |-> w.attr[x]] : x \in {s.toks[1].id, s.toks[1].to}}
            ELSE s.err
=============================================================================
