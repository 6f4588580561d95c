------------------------------ MODULE Schmitt ------------------------------
(* util/schmitt_trigger.hh SchmittTrigger (kind 0), RisingSchmittTrigger (1);  *)
(* util/math.hh hysteresis_gate (2), hysteresis_feedback (3: the output is high *)
(* while input plus feedback exceeds the threshold).  Values are integers k,    *)
(* standing for k / den; thresholds and inputs are compared at 4 times that, so *)
(* that 4 k + 1 stands for the next larger float.  den = 0: default thresholds (64 and 96 over 160).     *)
EXTENDS Common

Start(c) == [kind |-> c[1], den |-> c[2], lo |-> c[3], hi |-> c[4], lv |-> 0, up |-> 0, dn |-> 0]
Obs(t) == IF t.kind = 0 THEN <<t.lv, t.lv>> ELSE <<>>
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }
Next01(s, x) == IF s.lv = 0 THEN B2I(x > 4 * s.hi)
                ELSE IF s.kind = 3 THEN B2I(x > 4 * s.lo) ELSE B2I(~(x < 4 * s.lo))

(* near: the float at distance a[2] (in {-1, 0, 1}) from the low (a[1] = 0) or high threshold *)
X(s, op, a) == IF op = "in" THEN 4 * a[1] ELSE (IF a[1] = 0 THEN 4 * s.lo ELSE 4 * s.hi) + a[2]

Step(s, op, a) ==
  CASE op \in {"in", "near"} -> LET v == Next01(s, X(s, op, a)) IN
         Res([s EXCEPT !.lv = v, !.up = IF v > s.lv THEN 1 ELSE IF v < s.lv THEN 0 ELSE @,
                       !.dn = IF v < s.lv THEN 1 ELSE IF v > s.lv THEN 0 ELSE @],
             (CASE s.kind = 0 -> <<>> [] s.kind = 1 -> <<B2I(v > s.lv)>> [] OTHER -> <<v>>))
    [] op = "just_pressed" -> Res([s EXCEPT !.up = 0], <<s.up>>)
    [] op = "just_released" -> Res([s EXCEPT !.dn = 0], <<s.dn>>)
    \* the caller's previous output (kinds 2, 3)
    [] op = "last" -> Res([s EXCEPT !.lv = a[1]], <<>>)

Inputs(s) == IF s.den = 0 THEN {-10, 0, 63, 65, 80, 95, 97, 160} ELSE (s.lo - 2)..(s.hi + 2) \cup {-100, 100}
Menu(s) == { <<"in", <<x>> >> : x \in Inputs(s) } \cup (IF s.kind = 3 THEN {} ELSE { <<"near", <<w, d>> >> : w \in 0..1, d \in -1..1 })
           \cup (IF s.kind = 0 THEN { <<"just_pressed", <<>> >>, <<"just_released", <<>> >> } ELSE {})
           \cup (IF s.kind \in {2, 3} THEN { <<"last", <<v>> >> : v \in 0..1 } ELSE {})
Configs == { <<k, 16, x[1], x[2]>> : k \in 0..3, x \in { <<6, 10>>, <<-3, 5>>, <<4, 4>>, <<-8, -7>> } }
           \cup { <<0, 0, 64, 96>>, <<1, 0, 64, 96>> }
BigConfigs == Configs \cup { <<k, 4096, x[1], x[2]>> : k \in 0..3, x \in { <<600, 611>>, <<-30, 35>> } }

Inv(s) == s.up = 0 \/ s.dn = 0
Safe(s, op, a, r, t) ==
  op \in {"in", "near"} =>
    LET x == X(s, op, a)  lo == 4 * s.lo  hi == 4 * s.hi IN
               /\ (t.lv > s.lv => x > hi)
               /\ (t.lv < s.lv => IF s.kind = 3 THEN x <= lo ELSE x < lo)
               /\ (lo < x /\ x < hi => t.lv = s.lv)
               /\ (x > hi => t.lv = 1) /\ (x < lo => t.lv = 0)
===========================================================================
