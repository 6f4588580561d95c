------------------------------- MODULE Param -------------------------------
(* util/parameter.hh.  kind 0 Parameter, 1 LatchedParam, 2 RefParameter.  Values *)
(* are integers k standing for k / den; min = minimum change of a LatchedParam.   *)
(* v = value, chg = unreported change, seen = value at the last query (kind 2),   *)
(* w = a second latched parameter's value and flag (for assignment)               *)
EXTENDS Common

(* c = <<kind, type, min, init, with an initial value>> *)
Start(c) == [kind |-> c[1], typ |-> c[2], min |-> c[3], v |-> IF c[1] = 1 THEN 0 ELSE c[4],
             chg |-> IF c[1] = 0 THEN 1 ELSE 0, seen |-> 0, w |-> <<0, 0>>]
Obs(t) == <<t.v, t.v>> \o (IF t.kind = 1 THEN <<t.chg>> \o t.w ELSE <<>>)
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

Step(s, op, a) ==
  CASE op = "set" -> Res([s EXCEPT !.v = a[1], !.chg = IF s.kind = 0 /\ a[1] # s.v THEN 1 ELSE @], <<>>)
    [] op = "assign" -> Res([s EXCEPT !.v = a[1], !.chg = IF s.kind = 0 /\ a[1] # s.v THEN 1 ELSE @], <<>>)
    \* the referenced variable itself changes
    [] op = "poke" -> Res([s EXCEPT !.v = a[1]], <<>>)
    [] op = "changed" -> IF s.kind = 2 THEN Res([s EXCEPT !.seen = s.v], <<B2I(s.v # s.seen)>>)
                         ELSE Res([s EXCEPT !.chg = 0], <<s.chg>>)
    [] op = "store" -> IF AbsV(a[1] - s.v) >= s.min THEN Res([s EXCEPT !.v = a[1], !.chg = 1], <<1>>) ELSE Res(s, <<0>>)
    [] op = "save" -> Res([s EXCEPT !.w = <<s.v, s.chg>>], <<>>)
    [] op = "restore" -> Res([s EXCEPT !.v = s.w[1], !.chg = s.w[2]], <<>>)

Vals(s) == IF s.kind = 1 THEN {0, 1, s.min - 1, s.min, s.min + 1, 2 * s.min} ELSE {0, 1, 2, 5}
Menu(s) ==
  CASE s.kind = 0 -> { <<o, <<v>> >> : o \in {"set", "assign"}, v \in Vals(s) } \cup { <<"changed", <<>> >> }
    [] s.kind = 1 -> { <<o, <<v>> >> : o \in {"store", "assign"}, v \in Vals(s) } \cup { <<o, <<>> >> : o \in {"changed", "save", "restore"} }
    [] s.kind = 2 -> { <<o, <<v>> >> : o \in {"set", "assign", "poke"}, v \in Vals(s) } \cup { <<"changed", <<>> >> }
(* types: 0 int, 1 unsigned, 2 float (den 16), 3 uint8 *)
Configs == { <<k, t, 0, i, 1>> : k \in {0, 2}, t \in {0, 1, 2, 3}, i \in {0, 2} } \cup { <<0, 0, 0, 0, 0>>, <<0, 2, 0, 0, 0>> }
           \cup { <<1, 0, 10, 0, 0>>, <<1, 1, 3, 0, 0>>, <<1, 2, 4, 0, 0>>, <<1, 3, 8, 0, 0>>, <<1, 2, 16, 0, 0>> }
BigConfigs == Configs
Inv(s) == s.chg \in 0..1
Safe(s, op, a, r, t) ==
  /\ op = "store" => (r[1] = 1 <=> t.v = a[1] /\ AbsV(a[1] - s.v) >= s.min) /\ (r[1] = 0 => t = s)
  /\ op = "changed" /\ s.kind = 0 => (r[1] = s.chg) /\ t.chg = 0
  /\ op \in {"set", "assign"} => t.v = a[1]
=============================================================================
