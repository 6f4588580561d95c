------------------------------ MODULE Callable ------------------------------
(* util/callable.hh: three callables.  A slot holds nothing or a function       *)
(* object [kind, tag, n]: kind 1 with a capture that has constructors and a     *)
(* destructor, 2 with a plain capture, 3 a function pointer, 4 with a capture that *)
(* knows its own address (so it must be copied by its copy constructor); n: how often this *)
(* object was called (captured state).  Observed: which slots hold something,   *)
(* and how many captured objects exist.                                         *)
EXTENDS Common

Empty == [kind |-> 0, tag |-> 0, n |-> 0]
(* c = <<signature and size>> *)
Start(c) == [cfg |-> c[1], f |-> Rep(Empty, 3)]
Live(s) == Cardinality({ i \in 1..3 : s.f[i].kind = 1 })
Res(t, r) == { [s |-> t, r |-> r \o [i \in 1..3 |-> B2I(t.f[i].kind # 0)] \o <<Live(t)>>] }

Step(s, op, a) ==
  LET i == IF op = "fits" THEN 1 ELSE a[1] + 1 IN
  CASE op = "fits" -> Res(s, [k \in 1..40 |-> B2I(k <= a[1])])   \* exactly what fits is accepted
    [] op \in {"store", "make"} -> Res([s EXCEPT !.f[i] = [kind |-> a[2], tag |-> IF a[2] = 3 THEN 0 ELSE a[3], n |-> 0]], <<>>)
    [] op \in {"assign", "copy"} -> Res([s EXCEPT !.f[i] = s.f[a[2] + 1]], <<>>)
    [] op = "clear" -> Res([s EXCEPT !.f[i] = Empty], <<>>)
    \* only this object's captured state changes
    [] op = "call" -> LET g == s.f[i] IN
         IF g.kind = 3 THEN Res(s, <<70000 + a[2]>>)
         ELSE Res([s EXCEPT !.f[i].n = @ + 1], <<g.tag * 1000 + (g.n + 1) * 10 + a[2]>>)

Menu(s) ==
  { <<o, <<i, k, 1 + i>> >> : o \in {"store", "make"}, i \in 0..2, k \in IF s.cfg % 2 = 0 THEN {1} ELSE {1, 3} \cup (IF s.cfg = 4 THEN {4} ELSE {}) }
  \cup { <<"assign", <<i, j>> >> : i, j \in 0..2 } \cup { <<"copy", <<i, j>> >> : i, j \in { 0, 1 } }
  \cup { <<"clear", <<i>> >> : i \in 0..2 }
  \cup { <<"call", <<i, 4>> >> : i \in { j \in 0..2 : s.f[j + 1].kind # 0 /\ s.f[j + 1].n < 1 } }

Configs == { <<0>>, <<1>>, <<2>>, <<3>>, <<4>> }
BigConfigs == Configs
Inv(s) == \A i \in 1..3 : s.f[i].kind \in 0..4
Safe(s, op, a, r, t) ==
  /\ op = "call" => \A j \in 1..3 : j # a[1] + 1 => t.f[j] = s.f[j]
  /\ op \in {"assign", "copy"} => t.f[a[2] + 1] = s.f[a[2] + 1] /\ t.f[a[1] + 1] = s.f[a[2] + 1]
=============================================================================
