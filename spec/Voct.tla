-------------------------------- MODULE Voct --------------------------------
(* util/voct_calibrator.hh: slope and offset from the two latest readings, the   *)
(* offset from the reading of C0 once there was one.                             *)
EXTENDS Common

(* c = <<0>> ints; <<1>> / <<2>> float / double, readings in 1/16, shown in 1/5040 of that *)
Start(c) == [c |-> c[1], slope |-> 0, offset |-> 0, c0 |-> 0, pts |-> <<>>]
None == 11
(* the line through the two latest points, as far as they define one *)
One(s) == IF s.c = 0 THEN 1 ELSE 5040
Div(s, x, y) == IF s.c = 0 THEN CDiv(x, y) ELSE (x * One(s)) \div y   \* exact: spans divide 5040
Slope(s, p) == LET span == p[1][1] - p[2][1]  diff == p[1][2] - p[2][2] IN
               IF span = 0 \/ diff = 0 THEN s.slope
               ELSE IF s.c = 0 THEN CDiv(diff, span) ELSE (diff * 5040) \div span
Offset(s, p, m) == LET o == [i \in 1..2 |-> p[i][2] * One(s) - m * p[i][1]] IN IF s.c = 0 THEN CDiv(o[1] + o[2], 2) ELSE (o[1] + o[2]) \div 2
Record(s, n, m) ==
  IF n = None THEN s
  ELSE LET p == (IF Len(s.pts) = 2 THEN <<s.pts[2]>> ELSE s.pts) \o << <<n, m>> >>
           c0 == Max2(s.c0, B2I(n = 0))
           off == IF n = 0 THEN m * One(s) ELSE s.offset
       IN IF Len(p) < 2 THEN [s EXCEPT !.pts = p, !.c0 = c0, !.offset = off]
          ELSE LET sl == Slope(s, p) IN
               [s EXCEPT !.pts = p, !.c0 = c0, !.slope = sl, !.offset = IF c0 = 1 THEN off ELSE Offset(s, p, sl)]

Step(s, op, a) ==
  LET t == IF op = "reset" THEN Start(<<s.c>>) ELSE Record(s, a[1], a[2])
  \* halves of 1/5040 are shown rounded either way
  IN { [s |-> t, r |-> << t.slope, x >>] : x \in IF s.c = 0 THEN {t.offset} ELSE { t.offset, t.offset + 1 } }
Menu(s) == { <<"reset", <<>>>> } \cup { <<"rec", <<n, m>>>> : n \in {0, 1, 3, None}, m \in {-7, 0, 5} }
Configs == { <<0>>, <<1>> }
BigConfigs == Configs \cup { <<2>> }
Inv(s) == Len(s.pts) <= 2
Safe(s, op, a, r, t) ==
  \* nothing measured before a reset has any effect after it
  /\ op = "reset" => t = Start(<<s.c>>) /\ r[1] = 0
  \* two different accepted readings of different octaves: the line passes through both
  /\ IF op = "reset" \/ Len(t.pts) < 2 \/ s.c = 0 THEN TRUE
     ELSE IF t.pts[1][1] = t.pts[2][1] \/ t.pts[1][2] = t.pts[2][2] \/ t.c0 = 1 THEN TRUE
     ELSE \A i \in 1..2 : AbsV(r[2] + r[1] * t.pts[i][1] - 5040 * t.pts[i][2]) <= 1
=============================================================================
