------------------------------ MODULE ErrTrace ------------------------------
(* Checks recorded histories of derivations of error values against Errors.tla. *)
EXTENDS Errors, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, vals        \* vals: the values the specification has after l steps
vars == <<tr, l, vals>>
S(i) == Traces[tr].s[i]
\* The text of an earlier value, as it was observed.
Txt(i) == S(l).vals[i].str
Init == tr \in 1 .. Len(Traces) /\ l = 0 /\ vals = <<>>
Next == l < Len(Traces[tr].s) /\ l' = l + 1 /\ tr' = tr /\ vals' = Append(vals, Derive(vals, S(l + 1).d, Txt))
Spec == Init /\ [][Next]_vars

Shows(o, v) == /\ o.code = v.code /\ o.desc = v.desc /\ o.msg = v.msg /\ o.data = v.data
               /\ o.unwrap = Unwrapped(v)
               /\ o.str = o.error
               /\ o.pok /\ o.pstmt = "Status" /\ o.pcode = v.code /\ o.pmsg = Message(v)
C22 == l > 0 => /\ S(l).crash = ""
                /\ Len(S(l).vals) = l
                /\ \A i \in 1 .. l : Shows(S(l).vals[i], vals[i])
                /\ \A i \in 1 .. l - 1 : S(l).vals[i] = S(l - 1).vals[i]
=============================================================================
