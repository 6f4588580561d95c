------------------------------- MODULE Calib -------------------------------
(* util/calibrator.hh: a line through the point <<m, t>> (measured, target)    *)
(* with slope n / d.  Results are shown in 1/64, arguments and points in 1/4.  *)
EXTENDS Common

Tol == 3
Start(c) == [m |-> 0, t |-> 0, n |-> 1, d |-> 1]
(* obs / 64 is num / den, up to the rounding of floats *)
NearQ(num, den) == LET v == (64 * num) \div den IN (v - Tol)..(v + 1 + Tol)
LineOf(a) == [m |-> a[3], t |-> a[1], n |-> a[2] - a[1], d |-> a[4] - a[3]]
One(s, R) == { [s |-> s, r |-> <<x>>] : x \in R }
Step(s, op, a) ==
  CASE op \in {"make", "cal2", "cal"} -> Ok(LineOf(a), <<>>)
    [] op \in {"set", "lit"} -> Ok([m |-> a[2], t |-> 0, n |-> a[1], d |-> 16], <<>>)
    [] op = "adjust" -> One(s, NearQ((a[1] - s.m) * s.n + s.t * s.d, 4 * s.d))
    [] op = "reverse" -> One(s, NearQ((a[1] - s.t) * s.d + s.m * s.n, 4 * s.n))
    [] op = "there" -> { [s |-> s, r |-> <<x, y>>] : x, y \in NearQ(a[1], 4) }
    [] op = "show" -> { [s |-> s, r |-> <<x, y>>] : x \in NearQ(s.n, s.d), y \in NearQ(s.m * s.n - s.t * s.d, 4 * s.n) }
Vals == {-3, 0, 1, 5}
Menu(s) ==
  IF s = Start(<<>>) THEN { <<op, q>> : op \in {"make", "cal", "cal2"}, q \in { p \in Vals \X Vals \X Vals \X Vals : p[1] # p[2] /\ p[3] # p[4] } }
       \cup { <<op, <<v>>>> : op \in {"adjust", "reverse", "there"}, v \in {-12, 0, 2, 20} } \cup { <<"show", <<>>>> }
       \cup { <<"set", <<n, o>>>> : n \in {-16, 8, 32}, o \in {-2, 0, 3} }
  ELSE { <<op, <<v>>>> : op \in {"adjust", "reverse", "there"}, v \in {-12, 0, 2, 20} } \cup { <<"show", <<>>>> }
Configs == { <<0>> }
BigConfigs == Configs
Inv(s) == s.n # 0 /\ s.d # 0
(* the calibrated points themselves: a second measured point maps onto its target *)
Safe(s, op, a, r, t) == op \in {"make", "cal2", "cal"} => (a[4] - t.m) * t.n + t.t * t.d = a[2] * t.d
=============================================================================
