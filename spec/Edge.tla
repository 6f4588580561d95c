------------------------------- MODULE Edge -------------------------------
(* util/edge_detector.hh EdgeStateDetector (kind 0), RisingEdgeDetector (1),   *)
(* FallingEdgeDetector (2), util/change_detector.hh ChangeDetector (3).         *)
(* p = previous sample, q = latest sample, chg = unreported change (kind 3)     *)
EXTENDS Common

Start(c) == [kind |-> c[1], p |-> 0, q |-> 0, chg |-> 0]
Obs(t) == IF t.kind # 0 THEN <<>>
          ELSE <<B2I(t.p # t.q), B2I(t.p < t.q), B2I(t.p > t.q), t.q, t.p * t.q, (1 - t.p) * (1 - t.q)>>
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

Step(s, op, a) ==
  CASE op = "update" ->
         Res([s EXCEPT !.p = s.q, !.q = a[1], !.chg = IF s.q # a[1] THEN 1 ELSE @],
             (CASE s.kind = 1 -> <<B2I(s.q < a[1])>> [] s.kind = 2 -> <<B2I(s.q > a[1])>> [] OTHER -> <<>>))
    [] op = "changed" -> Res([s EXCEPT !.chg = 0], <<s.chg>>)
    [] op = "obs" -> Res(s, <<>>)
    [] op = "reset" -> Res([s EXCEPT !.p = 0, !.q = 0], <<>>)

Menu(s) == { <<"update", <<v>> >> : v \in 0..1 }
           \cup (IF s.kind = 3 THEN { <<"changed", <<>> >> } ELSE {}) \cup (IF s.kind = 0 THEN { <<"reset", <<>> >>, <<"obs", <<>> >> } ELSE {})
Configs == { <<k>> : k \in 0..3 }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) ==
  /\ op = "update" /\ s.kind \in {1, 2} => (r[1] = 1 <=> s.q # a[1] /\ a[1] = 2 - s.kind)
  /\ op = "changed" => (r[1] = s.chg /\ t.chg = 0)
===========================================================================
