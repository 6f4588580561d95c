------------------------------- MODULE Block -------------------------------
(* util/circular_buffer_block.hh: blocks of at most n elements written at any   *)
(* start position (taken modulo n) of a ring of n elements.                     *)
EXTENDS Common
Start(c) == [n |-> c[1], mem |-> Rep(0, c[1])]
Big(n) == <<0, 1, 2, 65534, 65535, 65536, 65537, 65538, n - 2, n - 1>>    \* what is shown of a large ring
Step(s, op, a) ==
  CASE op \in {"write", "pat"} ->      \* start position, values (or count and first value)
         LET k == IF op = "pat" THEN a[2] ELSE Len(a) - 1
             val(j) == IF op = "pat" THEN 1 + ((a[3] + j) % 100) ELSE a[j + 2]
             at(i) == (i - a[1]) % s.n          \* which element of the block falls on position i
             t == [s EXCEPT !.mem = [i \in 1..s.n |-> IF at(i - 1) < k THEN val(at(i - 1)) ELSE @[i]]]
         IN { [s |-> t, r |-> <<t.n>> \o (IF t.n <= 1000 THEN t.mem ELSE [j \in 1..10 |-> t.mem[Big(t.n)[j] + 1]])] }
Menu(s) == { <<"write", <<p>> \o [i \in 1..k |-> 1 + ((i + v) % 2)]>> : p \in (-1)..s.n, k \in 0..s.n, v \in {0, 1} }
Configs == { <<1>>, <<2>>, <<4>> }
BigConfigs == Configs
Inv(s) == Len(s.mem) = s.n
Safe(s, op, a, r, t) == op = "write" => \A j \in 2..Len(a) : t.mem[(((a[1] % s.n) + j - 2) % s.n) + 1] = a[j]
============================================================================
