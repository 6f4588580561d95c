-------------------------------- MODULE Lut --------------------------------
(* util/interp_array.hh (kind 0), util/lookup_table.hh (kind 1; 2: generated). *)
(* c = <<kind, elements, q>>: indices and inputs are in 1/q (16 if not given),    *)
(* phases in 1/4q;                                                               *)
(* results are scaled to whole numbers: <<value, 0>>.                           *)
EXTENDS Common

QOf(c) == IF Len(c) < 3 THEN 16 ELSE c[3]
(* d: the elements, or <<>> for those of a pattern in a large array *)
Pat(i) == (((i % 1009) * 7) % 101) + (i % 13)
Elem(s, i) == IF s.d = <<>> THEN Pat(i) ELSE s.d[i + 1]
Start(c) == IF c[1] = 0 THEN [kind |-> 0, n |-> c[2], q |-> QOf(c), d |-> Rep(0, c[2])]
            ELSE IF c[1] = 1 THEN [kind |-> 1, n |-> c[2], q |-> QOf(c), d |-> Rep(0, c[2]), lo |-> 0, hi |-> 1]
            ELSE [kind |-> 2]
(* between the elements around position x / q, that of index 0 following the last *)
Between(s, x, q) == LET n == s.n  i == (x \div q) % n  p == x % q IN Elem(s, i) * (q - p) + Elem(s, (i + 1) % n) * p
Ints(R) == { <<x, 0>> : x \in R }
One(s, x) == Ok(s, <<x, 0>>)
ArrStep(s, op, a) ==
  LET n == s.n  q == s.q IN
  CASE op = "load" -> Ok([s EXCEPT !.d = a], <<>>)
    [] op = "pat" -> Ok([s EXCEPT !.d = <<>>], <<>>)
    [] op = "put" /\ s.d # <<>> -> Ok([s EXCEPT !.d[a[1] + 1] = a[2]], <<>>)
    [] op = "get" -> Ok(s, <<Elem(s, a[1]), Elem(s, a[1])>>)
    [] op \in {"index", "indexw"} -> One(s, Between(s, a[1], q))
    [] op = "interp" -> One(s, Between(s, a[1] * (n - 1), 4 * q))
    [] op = "interpw" -> One(s, Between(s, a[1] * n, 4 * q))
    [] op = "closest" -> Ok(s, <<Elem(s, (a[1] * (n - 1)) \div (4 * q))>>)
    [] op = "closestw" -> Ok(s, <<Elem(s, ((a[1] * n) \div (4 * q)) % n)>>)
(* the inputs lo..hi are spread over the points; outside, the first or the last point *)
LookAt(s, lo, hi, x, u) ==
  LET n == s.n  w == AbsV(hi - lo)  f == IF hi > lo THEN x - u * lo ELSE u * lo - x
      q == u * w  at == f * (n - 1) IN
  IF at <= 0 THEN Elem(s, 0) * q ELSE IF at >= q * (n - 1) THEN Elem(s, n - 1) * q
  ELSE Elem(s, at \div q) * (q - (at % q)) + Elem(s, (at \div q) + 1) * (at % q)
LookStep(s, op, a) ==
  CASE op = "fill" -> Ok([s EXCEPT !.lo = a[1], !.hi = a[2], !.d = DropN(a, 2)], <<>>)
    [] op = "fillpat" -> Ok([s EXCEPT !.lo = a[1], !.hi = a[2], !.d = <<>>], <<>>)
    [] op \in {"look", "call"} -> One(s, LookAt(s, s.lo, s.hi, a[1], s.q))
(* generated from x * x, 3 x + 1 (at quarters, times 16), and x * x again *)
Points(d) == [n |-> Len(d), d |-> d]
Gen1 == Points(<< 4, 1, 0, 1, 4 >>)
Gen2 == Points([i \in 1..9 |-> 2 * (3 * (i - 5)) + 4])    \* times 4
Gen4 == Points(<< 9, 1, 1, 9, 25 >>)                        \* times 16, at -3/4, -1/4, .. 5/4
Gen3 == Points([i \in 1..17 |-> (i + 1) * (i + 1)])        \* times 4
Step(s, op, a) ==
  CASE s.kind = 0 -> ArrStep(s, op, a)
    [] s.kind = 1 -> LookStep(s, op, a)
    [] s.kind = 2 -> IF a[1] = 0 THEN One(s, LookAt(Gen1, -2, 2, a[2], 16) * 4)
                     ELSE IF a[1] = 1 THEN One(s, LookAt(Gen2, -2, 2, a[2], 16)) ELSE IF a[1] = 3 THEN One(s, LookAt(Gen4, -3, 5, a[2], 4) \div 2) ELSE One(s, LookAt(Gen3, 1, 9, a[2], 16) \div 2)
Vals == {0, 1, 6}
Menu(s) ==
  CASE s.kind = 0 -> { <<"put", <<i, v, i % 3>>>> : i \in 0..s.n - 1, v \in Vals }
                     \cup { <<"get", <<i>>>> : i \in 0..s.n - 1 }
                     \cup { <<"index", <<x>>>> : x \in { y \in {0, 5, s.q, (3 * s.q) \div 2, 2 * s.q - 1, 2 * s.q, 3 * s.q - 1} : y < s.q * s.n } }
                     \cup { <<"indexw", <<x>>>> : x \in {0, 9, s.q * s.n - 1, s.q * s.n, s.q * s.n + 3, ((5 * s.q) \div 2) * s.n, -1, -s.q, -s.q - 1, -s.q * s.n, -(2 * s.q + 1) * s.n} }
                     \cup { <<op, <<x>>>> : op \in {"interpw", "closestw"}, x \in {0, 1, s.q + 5, 2 * s.q, 4 * s.q - 1, 4 * s.q, 4 * s.q + 6, 8 * s.q, 12 * s.q - 1, -1, -2 * s.q, -4 * s.q, -4 * s.q - 1, -8 * s.q - 1} }
                     \cup { <<op, <<x>>>> : op \in {"interp", "closest"}, x \in {0, 1, 2 * s.q - 1, 2 * s.q, 3 * s.q + 2, 4 * s.q - 1, 4 * s.q} }
    [] s.kind = 1 -> IF s.d = Rep(0, s.n)
                     THEN { <<"fill", <<l[1], l[2]>> \o [i \in 1..s.n |-> p[((i * i) % 3) + 1]]>> : l \in {<<0, 1>>, <<-2, 2>>, <<4, 8>>, <<-8, 0>>}, p \in Vals \X Vals \X Vals }
                     ELSE { <<op, <<x>>>> : op \in {"look", "call"}, x \in UNION { {s.q * b - 1, s.q * b, s.q * b + 1, s.q * b + 7} : b \in {s.lo, s.hi, (s.lo + s.hi) \div 2} } }
    [] OTHER -> { <<"at", <<k, x>>>> : k \in 0..3, x \in -48..160 }
Configs == { <<0, 1>>, <<0, 2>>, <<0, 3, 1024>>, <<1, 2>>, <<1, 3, 4096>>, <<1, 5, 4096>>, <<2, 0>>, <<2, 1>> }
BigConfigs == Configs \cup { <<0, 4>>, <<1, 6>>, <<1, 9>> }
Inv(s) == TRUE
Range2(d) == <<Min({ d[i] : i \in 1..Len(d) }), Max({ d[i] : i \in 1..Len(d) })>>
(* what is looked up lies between the smallest and the largest element *)
Safe(s, op, a, r, t) ==
  IF s.kind = 2 THEN TRUE ELSE IF s.d = <<>> THEN TRUE ELSE
  IF op \in {"index", "indexw"} THEN s.q * Range2(s.d)[1] <= r[1] /\ r[1] <= s.q * Range2(s.d)[2]
  ELSE IF op \in {"interp", "interpw"} THEN 4 * s.q * Range2(s.d)[1] <= r[1] /\ r[1] <= 4 * s.q * Range2(s.d)[2]
  ELSE IF op \in {"look", "call"} THEN s.q * AbsV(s.hi - s.lo) * Range2(s.d)[1] <= r[1] /\ r[1] <= s.q * AbsV(s.hi - s.lo) * Range2(s.d)[2]
  ELSE TRUE
=============================================================================
