----------------------------- MODULE Debounce -----------------------------
(* util/debouncer.hh Debouncer (cnt = 0) and DebouncerCounter (cnt = 1).  The   *)
(* patterns and the mask are sequences of bits, newest sample first; h = the    *)
(* samples so far (newest first, zeros before the first one).                   *)
EXTENDS Common

(* configuration: <<index of the instantiation in the driver, raw, cnt, number *)
(* of bits w, rising bits (w), falling bits (w), mask bits (w)>>                *)
Start(c) == LET w == c[4] IN
  [idx |-> c[1], raw |-> c[2], cnt |-> c[3], w |-> w, up |-> SubSeq(c, 5, 4 + w), dn |-> SubSeq(c, 5 + w, 4 + 2 * w),
   mask |-> SubSeq(c, 5 + 2 * w, 4 + 3 * w), h |-> Rep(0, w), lv |-> 0, pu |-> 0, pd |-> 0, n |-> 0]
Obs(t) == <<t.lv, t.lv>> \o (IF t.cnt = 1 THEN <<t.n>> ELSE <<>>)
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }
Match(s, h, pat) == \A i \in 1..s.w : s.mask[i] = 1 => h[i] = pat[i]

Reg(s, v) ==
  LET h == <<v>> \o SubSeq(s.h, 1, s.w - 1) IN
  IF Match(s, h, s.up) THEN [s EXCEPT !.h = h, !.lv = 1, !.pu = 1, !.pd = 0, !.n = 0]
  ELSE IF Match(s, h, s.dn) THEN [s EXCEPT !.h = h, !.lv = 0, !.pu = 0, !.pd = 1, !.n = 0]
  ELSE [s EXCEPT !.h = h, !.lv = IF s.raw = 1 THEN @ ELSE v, !.n = IF s.cnt = 1 THEN @ + 1 ELSE 0]
(* k equal samples: once the history is w equal ones, further ones decide the same or only count *)
RECURSIVE Many(_, _, _)
Many(s, v, k) == IF k = 0 THEN s
                 ELSE IF s.h = Rep(v, s.w)
                      THEN LET t == Reg(s, v) IN IF s.cnt = 1 /\ t.n > 0 THEN [t EXCEPT !.n = @ + k - 1] ELSE t
                 ELSE Many(Reg(s, v), v, k - 1)

Step(s, op, a) ==
  CASE op = "reg" -> Res(Reg(s, a[1]), <<>>)
    [] op = "regs" -> Res(Many(s, a[1], a[2]), <<>>)
    [] op = "just_pressed" -> Res([s EXCEPT !.pu = 0], <<s.pu>>)
    [] op = "just_released" -> Res([s EXCEPT !.pd = 0], <<s.pd>>)

Menu(s) == { <<"reg", <<v>> >> : v \in { w \in 0..1 : s.n < 5 } } \cup { <<"just_pressed", <<>> >>, <<"just_released", <<>> >> }
(* 1: default patterns under a 4-bit mask; 2: the same, debounced level; 3: two  *)
(* samples each way; 4: a mask with holes; 5, 6: 1 and 3 as counters             *)
Configs == {
  <<1, 0, 0, 4, 1,0,0,0, 0,1,1,1, 1,1,1,1>>,
  <<2, 1, 0, 4, 1,0,0,0, 0,1,1,1, 1,1,1,1>>,
  <<3, 1, 0, 3, 1,1,0, 0,0,1, 1,1,1>>,
  <<4, 0, 0, 4, 1,0,0,0, 0,0,0,1, 1,0,0,1>>,
  <<5, 0, 1, 3, 1,0,0, 0,1,1, 1,1,1>>,
  <<6, 1, 1, 3, 1,1,0, 0,0,1, 1,1,1>> }
BigConfigs == Configs \cup { <<7, 1, 0, 6, 1,1,1,0,0,0, 0,0,0,1,1,1, 1,1,0,0,1,1>> }

Inv(s) == s.pu = 0 \/ s.pd = 0
(* an event arises only from its pattern; the level is the raw sample or a decision *)
Safe(s, op, a, r, t) ==
  /\ op = "reg" /\ t.pu > s.pu => Match(t, t.h, t.up)
  /\ op = "reg" /\ t.pd > s.pd => Match(t, t.h, t.dn)
  /\ op = "reg" /\ s.raw = 1 /\ ~Match(t, t.h, t.up) /\ ~Match(t, t.h, t.dn) => t.lv = s.lv
  /\ op = "reg" /\ s.raw = 0 /\ s.up[1] = 1 /\ s.dn[1] = 0 => (s.mask[1] = 1 => t.lv = a[1])
===========================================================================
