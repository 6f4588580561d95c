------------------------------ MODULE Rotary ------------------------------
(* util/rotary_motion.hh: two accumulators, [abs position, unread motion]       *)
EXTENDS Common
Start(c) == [p |-> <<0, 0>>, m |-> <<0, 0>>]
Res(t, r) == { [s |-> t, r |-> r \o <<t.p[1], t.m[1], t.p[2], t.m[2]>>] }
Step(s, op, a) ==
  LET i == a[1] j == 3 - i IN
  CASE op = "use" -> Res([s EXCEPT !.m[i] = 0], <<s.m[i]>>)
    [] op = "add" -> Res([s EXCEPT !.m[i] = @ + s.m[j], !.p[i] = @ + s.m[j]], <<>>)
    [] op = "transfer" -> Res([s EXCEPT !.m[i] = @ + s.m[j], !.p[i] = @ + s.m[j], !.m[j] = 0], <<>>)
    [] op = "double" -> Res([s EXCEPT !.m[i] = @ + s.m[i], !.p[i] = @ + s.m[i]], <<>>)
    [] op = "copy" -> Res([s EXCEPT !.m[i] = s.m[j], !.p[i] = s.p[j]], <<>>)
    \* an encoder step arriving at accumulator i
    [] op = "step" -> Res([s EXCEPT !.m[i] = @ + a[2], !.p[i] = @ + a[2]], <<>>)
Menu(s) == { <<o, <<i>> >> : o \in {"use", "transfer"}, i \in 1..2 }
           \cup { <<"add", <<i>> >> : i \in { j \in 1..2 : AbsV(s.p[j] + s.m[3 - j]) < 4 /\ AbsV(s.m[j] + s.m[3 - j]) < 4 } }
           \cup { <<"step", <<i, v>> >> : i \in { j \in 1..2 : AbsV(s.p[j]) < 3 /\ AbsV(s.m[j]) < 3 }, v \in {-1, 1} }
           \cup { <<"double", <<i>> >> : i \in { j \in 1..2 : AbsV(s.p[j] + s.m[j]) < 4 /\ AbsV(2 * s.m[j]) < 4 } }
           \cup { <<"copy", <<1>> >> }
MenuB(s) == { x \in Menu(s) : x[1] # "transfer" \/ (AbsV(s.p[x[2][1]] + s.m[3 - x[2][1]]) < 4) }
Configs == { <<>> }
BigConfigs == Configs
Inv(s) == TRUE
(* motion is neither lost nor duplicated *)
Safe(s, op, a, r, t) ==
  LET i == a[1] j == 3 - i IN
  /\ op = "use" => r[1] = s.m[i] /\ t.m[i] = 0 /\ t.p = s.p /\ t.m[j] = s.m[j]
  /\ op = "transfer" => t.m[i] + t.m[j] = s.m[i] + s.m[j] /\ t.m[j] = 0 /\ t.p[i] - s.p[i] = s.m[j] /\ t.p[j] = s.p[j]
  /\ op = "add" => t.m[j] = s.m[j] /\ t.m[i] - s.m[i] = s.m[j] /\ t.p[i] - s.p[i] = s.m[j]
===========================================================================
