------------------------------ MODULE ErrorsMC ------------------------------
(* Every history of derivations up to a length; printed for the real code. *)
EXTENDS Errors, TLC, Json
CONSTANTS XLen, XKinds
VARIABLES vals, hist
vars == <<vals, hist>>
D(e, from, n, s, kvs, w) == [e |-> e, from |-> from, n |-> n, s |-> s, kvs |-> kvs, w |-> w]
N == DOMAIN vals
Key == <<"k" \o ToString(Len(hist)), "v">>
Ds == {d \in
        {D("new", 0, 0, "m", <<>>, <<>>)}
   \cup {D("code", i, c, "", <<>>, <<>>) : i \in N, c \in {404, 450, 7}}
   \cup {D("desc", i, 0, "d", <<>>, <<>>) : i \in N}
   \cup {D("data", i, 0, "", k, <<>>) : i \in N, k \in {<<Key>>, <<Key, Key>>}}
   \cup {D("clear", i, 0, "", <<>>, <<>>) : i \in N}
   \cup {D("wrap", i, 0, "", <<>>, w) : i \in N, w \in {<<<<"text", "e" \o ToString(Len(hist))>>>>, <<<<"nil", "">>, <<"value", 1>>>>}}
   \cup {D("join", 0, 0, "", <<>>, w) : w \in {<<>>, <<<<"value", 1>>, <<"text", "j">>>>}} : d.e \in XKinds}
T0(i) == "value"
Init == LET d == D("new", 0, 0, "first", <<>>, <<>>) IN vals = <<Fresh("first")>> /\ hist = <<d>>
Next == Len(hist) < XLen /\ \E d \in Ds : vals' = Append(vals, Derive(vals, d, T0)) /\ hist' = Append(hist, d)
Spec == Init /\ [][Next]_vars
\* Nothing that exists changes.
Frozen == [][\A i \in N : vals'[i] = vals[i]]_vars
Fine == \A i \in N : /\ Message(vals[i]) = vals[i].desc \o ": " \o vals[i].msg
                     /\ vals[i].errs # <<>> => Unwrapped(vals[i]) = vals[i].errs[1]
Show == Len(hist) = XLen => PrintT("EDGE " \o ToJson([f |-> 0, t |-> 0, c |-> hist]))
=============================================================================
