----------------------------- MODULE EqualTrace -----------------------------
(* Checks the real equality functions against equality of contents.  A run *)
(* holds worlds, trees, items and relationships that were built in         *)
(* different ways; each step compares one of them with all of its kind,    *)
(* several times: 1 all answers were "equal", 0 none was, 2 they differed. *)
EXTENDS Read
VARIABLE cls     \* the class of each thing of the run: the same number for the same content, 0 for what shows no content
vars == <<tr, l, cls>>

Member(k) == CASE k = "world" -> T.worlds [] k = "tree" -> T.trees [] k = "item" -> T.items [] k = "rel" -> T.rels
Ok(k, v)      == CASE k = "world" -> Sound(v) [] k = "tree" -> TreeSound(v) [] OTHER -> TRUE
Content(k, v) == CASE k = "world" -> W(v) [] k = "tree" -> TreeOf(v) [] OTHER -> v
Classes(k) == LET m  == Member(k)
                  ok == TLCEval([i \in DOMAIN m |-> Ok(k, m[i])])
                  c  == TLCEval([i \in {j \in DOMAIN m : ok[j]} |-> Content(k, m[i])])
              IN TLCEval([i \in DOMAIN m |-> IF ok[i] THEN CHOOSE j \in DOMAIN c : c[j] = c[i] ELSE 0])

Init == tr \in 1 .. Len(Traces) /\ l = 0 /\ cls = [k \in {S(i).k : i \in DOMAIN T.s} |-> Classes(k)]
Next == l < Len(T.s) /\ l' = l + 1 /\ UNCHANGED <<tr, cls>>
Spec == Init /\ [][Next]_vars

C17 == l > 0 => LET s == S(l) IN
  /\ s.crash = ""
  /\ LET c == cls[s.k]
     IN c[s.i] # 0 => \A j \in DOMAIN s.res : c[j] # 0 => s.res[j] = (IF c[j] = c[s.i] THEN 1 ELSE 0)
  /\ s.res # <<>> => s.res[s.i] = 1            \* everything equals itself
  /\ \A j \in DOMAIN s.back : s.back[j] = s.res[j]    \* and the other way round
=============================================================================
