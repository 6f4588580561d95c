-------------------------------- MODULE Neon --------------------------------
(* util/soft_neon.hh: three registers of four lanes, three of two; operations  *)
(* change their destination and nothing else.  Arguments in 1/8, lanes in 1/64. *)
EXTENDS Common

Start(c) == [q |-> Rep(Rep(0, 4), 3), d |-> Rep(Rep(0, 2), 3)]
Step(s, op, a) ==
  LET Q(k) == s.q[a[k] + 1]
      D(k) == s.d[a[k] + 1]
      SetQ(v) == Ok([s EXCEPT !.q[a[1] + 1] = v], <<>>)
      SetD(v) == Ok([s EXCEPT !.d[a[1] + 1] = v], <<>>) IN
  CASE op = "dupq" -> SetQ(Rep(8 * a[2], 4))
    [] op = "load" -> SetQ([i \in 1..4 |-> 8 * a[i + 1]])
    [] op = "mul" -> SetQ([i \in 1..4 |-> (Q(2)[i] \div 8) * (Q(3)[i] \div 8)])
    [] op = "mla" -> SetQ([i \in 1..4 |-> Q(2)[i] + (Q(3)[i] \div 8) * (Q(4)[i] \div 8)])
    [] op = "sub" -> SetQ([i \in 1..4 |-> Q(2)[i] - Q(3)[i]])
    [] op = "max" -> SetQ([i \in 1..4 |-> Max2(Q(2)[i], Q(3)[i])])
    [] op = "low" -> SetD(<<Q(2)[1], Q(2)[2]>>)
    [] op = "high" -> SetD(<<Q(2)[3], Q(2)[4]>>)
    [] op = "add" -> SetD(<<D(2)[1] + D(2)[2], D(3)[1] + D(3)[2]>>)
    [] op = "lane" -> Ok(s, Rep(D(1)[a[2] + 1], 2))
    [] op = "put" -> Ok([s EXCEPT !.q[a[1] + 1][a[2] + 1] = 8 * a[3]], <<>>)
    [] op = "clip" -> Ok([s EXCEPT !.q[a[1] + 1] = [i \in 1..4 |-> 8 * CRem(CDiv(@[i], 8), 800)],
                                   !.d = [k \in 1..3 |-> [i \in 1..2 |-> 8 * CRem(CDiv(s.d[k][i], 8), 800)]]], <<>>)
    [] op = "get" -> Ok(s, s.q[a[1] + 1] \o s.q[((a[1] + 1) % 3) + 1] \o s.q[((a[1] + 2) % 3) + 1])
Menu(s) == {}
Configs == { <<>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) == TRUE
=============================================================================
