------------------------------ MODULE ReadyLin ------------------------------
(* FilteredInterpArray between an interrupt that stores data and marks it       *)
(* ready, and a main loop that consumes ready data.  d = newest data, rdy =     *)
(* a mark not yet followed by a reading, late = a mark was made since the       *)
(* reader's current call began (that reading may or may not have consumed it).  *)
(* tgt = the value the last reading obtained; cand = the data a reading may     *)
(* obtain when memory is weak: what was stored when the last mark was made, or  *)
(* anything stored since.                                                       *)
EXTENDS Common
CONSTANT Weak
SC == FALSE
WK == TRUE
Start(c) == [d |-> 0, rdy |-> FALSE, late |-> FALSE, tgt |-> 0, cand |-> {0}]
Call(s, t, op, a) == IF op = "read" THEN [s EXCEPT !.late = FALSE] ELSE s
Step(s, t, op, a) ==
  CASE op = "write" -> Ok([s EXCEPT !.d = a[1], !.cand = @ \cup {a[1]}], <<>>)
    [] op = "mark" -> Ok([s EXCEPT !.rdy = TRUE, !.late = TRUE, !.cand = {s.d}], <<>>)
    [] op = "read" -> (IF s.rdy THEN { [s |-> [s EXCEPT !.rdy = b, !.tgt = v], r |-> <<1, v>>]
                                       : b \in IF s.late THEN {TRUE, FALSE} ELSE {FALSE}, v \in IF Weak THEN s.cand ELSE {s.d} }
                       ELSE {}) \cup (IF ~s.rdy \/ Weak THEN Ok(s, <<0>>) ELSE {})
(* a last reading with no one else running obtains the newest marked data *)
End(s, r) == r = <<IF s.rdy THEN s.d ELSE s.tgt>>
Inv(s) == TRUE
=============================================================================
