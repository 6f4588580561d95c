------------------------------- MODULE Quad -------------------------------
(* util/quadrature_encoder.hh.  h = the last four distinct input states (each   *)
(* a + 2b, newest last; zeros at the start).  A detent in one direction is the   *)
(* sequence 1 0 2 3, in the other 2 0 1 3; inverted inputs complement them.      *)
EXTENDS Common

Start(c) == [inv |-> c[1], h |-> <<0, 0, 0, 0>>]
X(s, v) == IF s.inv = 1 THEN 3 - v ELSE v
Seqn(s, q) == [i \in 1..4 |-> X(s, q[i])]
Step(s, op, a) ==
  LET v == a[1] + 2 * a[2] h == Tail(s.h) \o <<v>> IN
  IF v = s.h[4] THEN Ok(s, <<0, 0>>)
  ELSE Ok([s EXCEPT !.h = h], Rep(IF h = Seqn(s, <<1, 0, 2, 3>>) THEN 1 ELSE IF h = Seqn(s, <<2, 0, 1, 3>>) THEN -1 ELSE 0, 2))
Menu(s) == { <<"motion", <<x, y>> >> : x \in 0..1, y \in 0..1 }
Configs == { <<0>>, <<1>> }
BigConfigs == Configs
Inv(s) == TRUE
(* a step is reported only on arriving at the rest position after visiting the   *)
(* opposite corner with one input leading; the leading input gives the direction *)
Safe(s, op, a, r, t) ==
  /\ r[1] # 0 => t.h[4] = X(s, 3) /\ t.h[2] = X(s, 0) /\ t.h[4] # s.h[4]
  /\ r[1] = 1 => t.h[1] = X(s, 1) /\ t.h[3] = X(s, 2)
  /\ r[1] = -1 => t.h[1] = X(s, 2) /\ t.h[3] = X(s, 1)
  /\ t.h = s.h => r[1] = 0
===========================================================================
