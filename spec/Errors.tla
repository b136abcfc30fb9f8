------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Error values and how new ones are derived from old ones.                *)
(*                                                                         *)
(* An error value is a record                                              *)
(*   code, desc, msg ; data : sequence of <<key, value>> ;                 *)
(*   errs : sequence of the texts of the errors it wraps                   *)
(* A derivation is a record                                                *)
(*   e    : new, code, desc, data, clear, wrap, join                       *)
(*   from : the value it starts from (its number; 0 for new and join)      *)
(*   n    : code ;  s : text ;  kvs : data ;                               *)
(*   w    : what is wrapped: <<"text", t>> an error with text t,           *)
(*          <<"value", i>> the i-th value, <<"nil", "">> no error          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Known == {400, 404, 409, 450, 500, 502, 600}
Described(c) == CASE c = 500 -> "An unknown error occurred" [] c = 400 -> "Invalid input" [] c = 404 -> "Not found"
                  [] c = 409 -> "Conflict or impossible state" [] c = 502 -> "Issue with World state sync detected"
                  [] c = 600 -> "Multiple errors" [] c = 450 -> "Error while executing command"
Fresh(s) == [code |-> 500, desc |-> Described(500), msg |-> s, data |-> <<>>, errs |-> <<>>]

\* Text(i): the text of the i-th value.
Wrapped(w, Text(_)) == LET q == SelectSeq(w, LAMBDA x : x[1] # "nil")
                       IN [i \in DOMAIN q |-> IF q[i][1] = "text" THEN q[i][2] ELSE Text(q[i][2])]
Derive(vals, d, Text(_)) ==
  LET old == vals[d.from]
  IN CASE d.e = "new"   -> Fresh(d.s)
       [] d.e = "code"  -> [old EXCEPT !.code = d.n, !.desc = IF d.n \in Known THEN Described(d.n) ELSE old.desc]
       [] d.e = "desc"  -> [old EXCEPT !.desc = d.s]
       [] d.e = "data"  -> [old EXCEPT !.data = @ \o d.kvs]
       [] d.e = "clear" -> [old EXCEPT !.data = <<>>]
       [] d.e = "wrap"  -> [old EXCEPT !.errs = @ \o Wrapped(d.w, Text)]
       [] d.e = "join"  -> [Fresh("multiple errors") EXCEPT !.code = 600, !.desc = Described(600), !.errs = Wrapped(d.w, Text)]

\* What an error value shows.
Unwrapped(v) == IF v.errs = <<>> THEN "" ELSE v.errs[1]
Message(v)   == v.desc \o ": " \o v.msg
=============================================================================
