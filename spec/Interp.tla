------------------------------- MODULE Interp -------------------------------
(* util/interp_param.hh.  kind 0 InterpParam<T,4>, 1 InterpParamVar<T>,         *)
(* 2 InterpParamVariable<T>; typ 0 int (the step is rounded towards zero),      *)
(* typ 1 float: values k stand for k/16 and are only used where the step is     *)
(* exact.  left = updates until the target is due (-1: not moving towards one). *)
EXTENDS Common

(* c = <<kind, typ, num>> *)
Start(c) == [kind |-> c[1], typ |-> c[2], num |-> c[3], cur |-> 0, tgt |-> 0, step |-> 0, left |-> -1, n |-> 1]
Obs(t) == CASE t.kind = 0 -> <<t.step, t.cur>>
            [] t.kind = 1 -> <<t.step>>
            [] t.kind = 2 -> <<t.step, t.cur, t.tgt, t.num>>
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }
Aim(s, v, n) == [s EXCEPT !.tgt = v, !.step = CDiv(v - s.cur, n), !.left = n, !.n = n]

Step(s, op, a) ==
  CASE op = "set" -> (IF s.kind = 1 THEN (IF a[2] > 0 THEN Res(Aim(s, a[1], a[2]), <<>>)
                                         ELSE Res([s EXCEPT !.tgt = a[1], !.left = -1], <<>>))
                      ELSE Res(Aim(s, a[1], s.num), <<>>))
    [] op = "next" -> LET t == [s EXCEPT !.cur = @ + s.step, !.left = IF @ > 0 THEN @ - 1 ELSE -1] IN Res(t, <<t.cur>>)
    [] op = "snap" -> LET t == [s EXCEPT !.cur = s.tgt, !.left = IF s.left > 0 THEN -1 ELSE @] IN Res(t, <<t.cur>>)
    [] op = "setnum" -> Res([s EXCEPT !.num = a[1], !.left = -1], <<>>)

Vals(s) == IF s.typ = 1 THEN {-32, 0, 16, 64} ELSE {-7, 0, 3, 10}
Menu(s) ==
  { <<"set", IF s.kind = 1 THEN <<v, n>> ELSE <<v>> >> : v \in { w \in Vals(s) : s.typ = 0 \/ (w - s.cur) % 16 = 0 },
        n \in IF s.kind = 1 THEN (IF s.typ = 1 THEN {0, 1, 2, 4} ELSE {0, 1, 2, 3}) ELSE {0} }
  \cup (IF s.left > 0 THEN { <<"next", <<>> >> } ELSE {})
  \cup (IF s.kind = 1 THEN { <<"snap", <<>> >> } ELSE {})
  \cup (IF s.kind = 2 THEN { <<"setnum", <<n>> >> : n \in IF s.typ = 1 THEN {1, 4} ELSE {1, 3} } ELSE {})
Configs == { <<0, 0, 4>>, <<0, 1, 4>>, <<1, 0, 0>>, <<1, 1, 0>>, <<2, 0, 3>>, <<2, 1, 4>> }
BigConfigs == Configs
Inv(s) == s.left <= s.n
(* equal steps towards the target, and there after the configured number of updates, up to the step's rounding *)
Between(x, p, q) == (p <= x /\ x <= q) \/ (q <= x /\ x <= p)
Safe(s, op, a, r, t) ==
  /\ op = "next" => t.cur - s.cur = s.step
  /\ op = "next" /\ s.left > 0 => Between(t.cur, s.cur, s.tgt)
  /\ op = "next" /\ s.left = 1 => (AbsV(t.cur - t.tgt) < s.n) /\ (s.typ = 1 => t.cur = t.tgt)
  /\ op = "snap" => t.cur = s.tgt
  /\ op = "set" => t.cur = s.cur /\ t.tgt = a[1]
=============================================================================
