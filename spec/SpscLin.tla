------------------------------ MODULE SpscLin ------------------------------
(* The abstract FIFO that concurrent histories of the SPSC FIFO must be       *)
(* linearizable to.  Positions are relative to the start: w elements put,     *)
(* r elements taken, q = the elements in between.                             *)
(* Weak = TRUE: histories in which loads may return stale values: a thread    *)
(* may then not yet see what the other did (put refused, get finds nothing,   *)
(* counts too low), but what is delivered is still exact.                     *)
EXTENDS Common
CONSTANT Weak

(* configuration <<kind, n, starting position, number of elements already put>> *)
Start(c) == [n |-> c[2], q |-> [i \in 1..c[4] |-> i], w |-> c[4], r |-> 0, w0 |-> 0, low |-> c[3] < 0]
(* what the consumer's reset() removes are the elements present at some moment of the call *)
Call(s, t, op, a) == IF op \in {"reset", "keep"} THEN [s EXCEPT !.w0 = s.w] ELSE s

Fill(s) == Len(s.q)
Drop(s, k) == [s EXCEPT !.q = DropN(@, k), !.r = @ + k]
Res(s, r) == [s |-> s, r |-> r]
Empty(s) == Fill(s) = 0 \/ Weak
Full(s) == Fill(s) = s.n \/ Weak
Step(s, t, op, a) ==
  CASE op = "put" -> (IF Fill(s) < s.n THEN { Res([s EXCEPT !.q = Append(@, a[1]), !.w = @ + 1], <<1>>) } ELSE {})
                     \cup (IF Full(s) THEN { Res(s, <<0>>) } ELSE {})
    [] op \in {"get", "get_move"} ->
                     (IF Fill(s) > 0 THEN { Res(Drop(s, 1), <<1, s.q[1]>>) } ELSE {})
                     \cup (IF Empty(s) THEN { Res(s, <<0, 0>>) } ELSE {})
    [] op = "get_or_default" ->
                     (IF Fill(s) > 0 THEN { Res(Drop(s, 1), <<s.q[1]>>) } ELSE {})
                     \cup (IF Empty(s) THEN { Res(s, <<0>>) } ELSE {})
    [] op = "remove_first" ->
                     (IF Fill(s) > 0 THEN { Res(Drop(s, 1), <<>>) } ELSE {})
                     \cup (IF Empty(s) THEN { Res(s, <<>>) } ELSE {})
    [] op = "reset" -> { Res(Drop(s, k), <<>>) : k \in (IF Weak THEN 0 ELSE Max2(0, s.w0 - s.r))..Fill(s) }
    \* set_read_offset(k) by the consumer that finds more than k elements: all but the k newest go.
    \* (A position just past the wrap-around is "not possible": nothing happens.)
    [] op = "keep" -> (IF Fill(s) > a[1]
                       THEN { Res(Drop(s, k), <<>>) : k \in (IF Weak \/ s.low THEN 0 ELSE Max2(0, s.w0 - s.r - a[1]))..(Fill(s) - a[1]) } ELSE {})
                      \cup (IF Fill(s) <= a[1] \/ Weak \/ s.low THEN { Res(s, <<>>) } ELSE {})
    \* set_read_pos by the consumer, k elements on, if it finds that many
    [] op = "skip" -> (IF Fill(s) >= a[1] THEN { Res(Drop(s, a[1]), <<>>) } ELSE {})
                      \cup (IF Fill(s) < a[1] \/ Weak THEN { Res(s, <<>>) } ELSE {})
    \* producer-side reset: everything put before (all puts are the caller's own)
    [] op = "preset" -> { Res(Drop(s, Fill(s)), <<>>) }
    [] op = "num_free" -> { Res(s, <<k>>) : k \in (IF Weak THEN 0 ELSE s.n - Fill(s))..(s.n - Fill(s)) }
    [] op = "full" -> { Res(s, <<b>>) : b \in IF Weak THEN {B2I(Fill(s) = s.n), 1} ELSE {B2I(Fill(s) = s.n)} }
    [] op = "num_filled" -> { Res(s, <<k>>) : k \in (IF Weak THEN 0 ELSE Fill(s))..Fill(s) }
    [] op = "empty" -> { Res(s, <<b>>) : b \in IF Weak THEN {B2I(Fill(s) = 0), 1} ELSE {B2I(Fill(s) = 0)} }
End(s, r) == r = <<Fill(s)>> \o s.q
Inv(s) == Fill(s) \in 0..s.n /\ s.w - s.r = Fill(s)
SC == FALSE
WK == TRUE
============================================================================
