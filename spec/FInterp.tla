------------------------------ MODULE FInterp ------------------------------
(* util/filtered_interp_array.hh with n channels of int and no filter (w = 1) *)
(* or a moving average over w readings.                                        *)
EXTENDS Common

(* c = <<channels, filter window>> *)
Start(c) == [n |-> c[1], w |-> c[2], cur |-> Rep(0, c[1]), tgt |-> Rep(0, c[1]), step |-> Rep(0, c[1]),
             hist |-> Rep(Rep(0, c[2]), c[1]), rdy |-> FALSE, cnt |-> 0, num |-> 256, seen |-> FALSE]
Sum(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Pairs(n, f(_)) == FoldSeq(LAMBDA x, y : y \o x, <<>>, [i \in 1..n |-> <<i - 1, f(i)>>])

Step(s, op, a) ==
  CASE op = "mark" -> Ok([s EXCEPT !.rdy = TRUE], <<>>)
    [] op = "setnum" -> Ok([s EXCEPT !.num = a[1]], <<>>)
    \* each channel is read once, in order, through its own filter
    [] op = "read" -> (IF ~s.rdy THEN Ok(s, <<>>)
        ELSE LET num == IF s.cnt > 0 THEN s.cnt ELSE s.num
                 h == [i \in 1..s.n |-> Append(Tail(s.hist[i]), a[i])]
                 tg == [i \in 1..s.n |-> Sum(h[i]) \div s.w]
             IN Ok([s EXCEPT !.rdy = FALSE, !.cnt = 0, !.num = num, !.hist = h, !.tgt = tg, !.seen = TRUE,
                             !.step = [i \in 1..s.n |-> IF num > 0 THEN CDiv(tg[i] - s.cur[i], num) ELSE s.step[i]]],
                   [i \in 1..s.n |-> i - 1]))
    [] op = "update" ->
        LET k == s.cnt + 1
            c == [i \in 1..s.n |-> IF k >= s.num THEN s.tgt[i] ELSE s.cur[i] + s.step[i]]
        IN Ok([s EXCEPT !.cur = c, !.cnt = k], Pairs(s.n, LAMBDA i : c[i]))
    \* a[1] updates in a row: those before the last one step (while it was due) or sit on the target
    [] op = "updates" ->
        LET k == s.cnt + a[1]
            c == [i \in 1..s.n |-> IF k >= s.num THEN s.tgt[i] ELSE s.cur[i] + a[1] * s.step[i]]
        IN Ok([s EXCEPT !.cur = c, !.cnt = k], Pairs(s.n, LAMBDA i : c[i]))

Reads(n) == { [i \in 1..n |-> IF i = 1 THEN v ELSE v + 3 * i] : v \in {0, 5, 12} }
Menu(s) == { <<"mark", <<>> >> } \cup { <<"read", v>> : v \in Reads(s.n) }
           \cup (IF s.cnt < 5 THEN { <<"update", <<>> >> } ELSE {})
           \cup (IF s.seen THEN {} ELSE { <<"setnum", <<k>> >> : k \in {0, 1, 3} })
Configs == { <<1, 1>>, <<2, 1>> }
BigConfigs == Configs \cup { <<3, 1>> }
Inv(s) == \A i \in 1..s.n : TRUE
Between(x, p, q) == (p <= x /\ x <= q) \/ (q <= x /\ x <= p)
Safe(s, op, a, r, t) ==
  /\ op = "updates" => \A i \in 1..s.n : Between(t.cur[i], s.cur[i], s.tgt[i])
  /\ op = "update" => \A i \in 1..s.n : Between(t.cur[i], s.cur[i], s.tgt[i]) /\ (s.cnt + 1 >= s.num => t.cur[i] = s.tgt[i])
  /\ op = "read" => t.cur = s.cur /\ (s.cnt > 0 /\ s.rdy => t.num = s.cnt) /\ (~s.rdy => t = s)
=============================================================================
