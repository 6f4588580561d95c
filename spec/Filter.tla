------------------------------- MODULE Filter -------------------------------
(* util/filter.hh.  kind 0 MovingAverage<w>, 1 Oversampler<w>, 2                *)
(* SmoothOversampler<w>, 3 ResizingOversampler, 4 CascadingFilter<Oversampler    *)
(* <4>, MovingAverage<2>>, 5 NoFilter, 6 HysteresisFilter<1,4> (values k/16),    *)
(* 7 QuadraticOnePoleLp<w or 1> (values in w's).  Kinds 2 and 3 report averages: values are 840ths.   *)
(* win = samples of the window in progress (kind 0: the last w samples),         *)
(* val = current output; win2 = the second filter's window (kind 4);             *)
(* keep = a second, saved object (kind 3).                                       *)
EXTENDS Common

(* c = <<kind, w, type>>; kind 3 of type 4 has its values in quarters, kind 7 of types above 1 is the filter of w (0: 1)  *)
(* with its values in parts of 1/type *)
Units(s) == IF s.u > 1 THEN s.u * Max2(1, s.w) ELSE 1
Start(c) == [kind |-> c[1], w |-> c[2], u |-> IF c[1] = 7 THEN c[3] ELSE 0, win |-> IF c[1] = 0 THEN Rep(0, c[2]) ELSE <<>>, val |-> IF c[1] = 6 THEN c[2] ELSE 0,
             win2 |-> <<0, 0>>, keep |-> IF c[1] = 3 THEN <<1, <<>>, 0>> ELSE <<>>]
LastN(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
Sum(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Avg(q) == Sum(q) \div Len(q)
Avg840(q) == IF Sum(q) % Len(q) = 0 THEN (Sum(q) \div Len(q)) * 840 ELSE (Sum(q) * 840) \div Len(q)
Obs(t) == IF t.kind = 4 THEN <<>> ELSE <<t.val>>
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

(* the window is complete: output its average and start the next one *)
Full(s, avg(_)) == IF Len(s.win) >= s.w THEN [s EXCEPT !.val = avg(s.win), !.win = <<>>] ELSE s

Step(s, op, a) ==
  CASE op = "add" ->
        LET t == CASE s.kind = 0 -> LET q == Append(Tail(s.win), a[1]) IN [s EXCEPT !.win = q, !.val = Avg(q)]
                   [] s.kind \in {1, 4} -> Full([s EXCEPT !.win = Append(@, a[1])], Avg)
                   [] s.kind \in {2, 3} -> Full([s EXCEPT !.win = Append(@, a[1])], Avg840)
                   [] s.kind = 5 -> [s EXCEPT !.val = a[1]]
                   [] s.kind = 6 -> [s EXCEPT !.val = Clamp(@, a[1] - 4, a[1] + 4)]
                   [] s.kind = 7 -> [s EXCEPT !.val = @ + CDiv((a[1] - @) * AbsV(a[1] - @), Units(s))]
        IN Res(t, <<t.val>>)
    [] op = "look" -> Res(s, <<>>)
    \* a[2] samples of the same value, not past the end of the window in progress
    [] op = "adds" -> (CASE s.kind = 0 -> LET q == LastN(s.win \o Rep(a[1], a[2]), s.w) IN Res([s EXCEPT !.win = q, !.val = Avg(q)], <<>>)
                         [] s.kind = 1 -> Res(Full([s EXCEPT !.win = @ \o Rep(a[1], a[2])], Avg), <<>>)
                         [] s.kind \in {2, 3} -> Res(Full([s EXCEPT !.win = @ \o Rep(a[1], a[2])], Avg840), <<>>))
    \* kind 4: reading the output is what feeds the second filter
    [] op = "val" -> LET q == Append(Tail(s.win2), s.val) IN Res([s EXCEPT !.win2 = q], <<Avg(q)>>)
    \* a window that is already long enough for the new size is complete
    [] op = "set_size" -> Res([(IF Len(s.win) >= a[1] THEN [s EXCEPT !.val = Avg840(s.win), !.win = <<>>] ELSE s) EXCEPT !.w = a[1]], <<>>)
    [] op = "reset" -> Res([s EXCEPT !.val = 0, !.win = <<>>], <<>>)
    [] op = "save" -> Res([s EXCEPT !.keep = <<s.w, s.win, s.val>>], <<>>)
    [] op = "load" -> Res([s EXCEPT !.w = s.keep[1], !.win = s.keep[2], !.val = s.keep[3]], <<>>)

Vals(s) == IF s.kind \in {0, 1, 2, 3, 4} THEN {0, 1, 6} ELSE IF s.kind = 6 THEN {-8, -1, 0, 3, 20} ELSE IF s.kind = 7 THEN {-1, 0, 1, 2} ELSE {0, 1, 2}
Menu(s) == { <<"add", <<v>> >> : v \in { x \in Vals(s) : s.kind # 7 \/ AbsV(s.val) < 10 } }
           \cup (IF s.kind = 4 THEN { <<"val", <<>> >> } ELSE {})
           \cup (IF s.kind = 3 /\ s.w <= 3 THEN { <<"set_size", <<n>> >> : n \in 1..3 } \cup { <<"reset", <<>> >> } ELSE {})
Configs == { <<0, 1, 0>>, <<0, 4, 0>>, <<0, 4, 1>>, <<1, 1, 0>>, <<1, 4, 0>>, <<1, 4, 1>>, <<2, 3, 0>>, <<3, 3, 0>>, <<4, 4, 0>>, <<5, 1, 0>>, <<6, 0, 0>>, <<6, 32, 0>>, <<7, 0, 0>>, <<7, 4, 0>> }
BigConfigs == Configs \cup { <<0, 8, 0>>, <<1, 8, 0>> }
Inv(s) == s.kind \in 1..4 => Len(s.win) < s.w
(* the output is the average of its window: no more and no less *)
Safe(s, op, a, r, t) ==
  /\ op = "add" /\ s.kind = 0 => t.val * s.w <= Sum(t.win) /\ Sum(t.win) < (t.val + 1) * s.w
  /\ op = "add" /\ s.kind \in {1, 2, 3, 4} /\ t.win # <<>> => t.val = s.val
  /\ op = "add" /\ s.kind \in {1, 2, 3, 4} => (t.win = <<>>) <=> (Len(s.win) + 1 = s.w)
  /\ op = "add" /\ s.kind = 6 => AbsV(t.val - a[1]) <= Max2(4, 0) /\ (AbsV(s.val - a[1]) <= 4 => t.val = s.val)
=============================================================================
