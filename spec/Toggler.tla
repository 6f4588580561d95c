------------------------------ MODULE Toggler ------------------------------
(* util/debouncer.hh Toggler (kind 0), debouncer_compact.hh TogglerCompact     *)
(* (kind 1), TogglerCounter (kind 2).  Two togglers; lv = level, up / dn =      *)
(* unreported rising / falling edge, n = steady count (kind 2).                 *)
EXTENDS Common

T0 == [lv |-> 0, up |-> 0, dn |-> 0, n |-> 0]
Start(c) == [kind |-> c[1], t |-> <<T0, T0>>]
O1(s, x) == <<x.lv, x.lv, x.lv>> \o (IF s.kind = 2 THEN <<x.n>> ELSE <<>>)
Res(s, t, r) == LET u == [s EXCEPT !.t = t] IN { [s |-> u, r |-> r \o O1(s, t[1]) \o O1(s, t[2])] }
One(s, i, x, r) == Res(s, [s.t EXCEPT ![i] = x], r)
(* registering a state raises the matching edge only when the level changes *)
Reg(s, x, v) == IF v = x.lv THEN (IF s.kind = 2 THEN [x EXCEPT !.n = @ + 1] ELSE x)
                ELSE IF v = 1 THEN [x EXCEPT !.lv = 1, !.up = 1, !.n = 0]
                ELSE [x EXCEPT !.lv = 0, !.dn = 1, !.n = 0]
(* take over the level and the pending edges of y *)
Upd(x, y) == [x EXCEPT !.lv = y.lv, !.up = Max2(x.up, y.up), !.dn = Max2(x.dn, y.dn)]

Step(s, op, a) ==
  LET i == a[1] x == s.t[i] y == s.t[3 - i] IN
  CASE op \in {"reg", "process"} -> One(s, i, Reg(s, x, a[2]), <<>>)
    \* a[3] >= 1 registrations of the same state
    [] op = "regs" -> One(s, i, IF s.kind = 2 THEN [Reg(s, x, a[2]) EXCEPT !.n = @ + a[3] - 1] ELSE Reg(s, x, a[2]), <<>>)
    [] op \in {"just_pressed", "went_high"} -> One(s, i, [x EXCEPT !.up = 0], <<x.up>>)
    [] op \in {"just_released", "went_low"} -> One(s, i, [x EXCEPT !.dn = 0], <<x.dn>>)
    [] op = "clear" -> One(s, i, [x EXCEPT !.up = 0, !.dn = 0], <<>>)
    [] op = "reset_count" -> One(s, i, [x EXCEPT !.n = 0], <<>>)
    [] op = "reset" -> One(s, i, [x EXCEPT !.lv = 0, !.up = 0, !.dn = 0], <<>>)
    [] op = "rise" -> One(s, i, [x EXCEPT !.lv = 1, !.up = 1, !.dn = 0], <<>>)
    [] op = "fall" -> One(s, i, [x EXCEPT !.lv = 0, !.up = 0, !.dn = 1], <<>>)
    [] op \in {"set", "set_old"} -> One(s, i, [x EXCEPT !.lv = B2I(a[2] # 0)], <<>>)
    [] op \in {"copy", "assign", "construct"} -> One(s, i, y, <<>>)
    [] op = "update" -> One(s, i, Upd(x, y), <<>>)
    [] op = "transfer" -> Res(s, [j \in 1..2 |-> IF j = i THEN Upd(x, y) ELSE [y EXCEPT !.up = 0, !.dn = 0]], <<>>)

Menu(s) ==
  { <<o, <<i, v>> >> : o \in {"reg", "process"}, i \in 1..2,
                        v \in { w \in 0..1 : s.kind # 2 \/ \A j \in 1..2 : s.t[j].n < 2 } }
  \cup { <<o, <<i>> >> : o \in {"just_pressed", "just_released", "went_high", "went_low", "clear"}, i \in 1..2 }
  \cup (IF s.kind = 2 THEN { <<"reset_count", <<i>> >> : i \in 1..2 } \cup { <<o, <<i>> >> : o \in {"assign", "construct"}, i \in 1..2 }
        ELSE { <<o, <<i>> >> : o \in {"reset", "rise", "fall", "copy", "assign", "construct", "update", "transfer"}, i \in 1..2 }
             \cup { <<"set", <<i, v>> >> : i \in 1..2, v \in {0, 1, 7} }
             \cup (IF s.kind = 0 THEN { <<"set_old", <<i, v>> >> : i \in 1..2, v \in {0, 2} } ELSE {}))
Configs == { <<0>>, <<1>>, <<2>> }
BigConfigs == Configs

Inv(s) == \A i \in 1..2 : s.t[i].lv \in 0..1 /\ s.t[i].up \in 0..1 /\ s.t[i].dn \in 0..1
(* an edge becomes pending exactly when the level changed that way by          *)
(* registration (or was taken over), and is reported at most once              *)
Safe(s, op, a, r, u) ==
  LET i == a[1] x == s.t[i] y == s.t[3 - i] z == u.t[i] IN
  /\ (z.up > x.up) => (op \in {"reg", "regs", "process"} /\ x.lv = 0 /\ z.lv = 1) \/ op = "rise"
                      \/ (op \in {"copy", "assign", "construct", "update", "transfer"} /\ y.up = 1)
  /\ (z.dn > x.dn) => (op \in {"reg", "regs", "process"} /\ x.lv = 1 /\ z.lv = 0) \/ op = "fall"
                      \/ (op \in {"copy", "assign", "construct", "update", "transfer"} /\ y.dn = 1)
  /\ op \in {"reg", "process"} => (x.lv = 0 /\ z.lv = 1 => z.up = 1) /\ (x.lv = 1 /\ z.lv = 0 => z.dn = 1)
  /\ op \in {"just_pressed", "went_high"} => (r[1] = 1 <=> x.up = 1) /\ z.up = 0
  /\ op = "transfer" => z.up + u.t[3 - i].up = Max2(x.up, y.up) /\ z.dn + u.t[3 - i].dn = Max2(x.dn, y.dn)
=============================================================================
