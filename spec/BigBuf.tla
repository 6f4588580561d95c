------------------------------- MODULE BigBuf -------------------------------
(* util/big_buffer.hh.  Three places, each empty or holding a buffer: m is the *)
(* set of its <<index, value>> other than 0.  kind 0, 1, 5 watches how many    *)
(* elements are alive: those of the buffers there are, and no others.          *)
EXTENDS Common

(* c = <<kind, elements>> *)
None == [on |-> 0, m |-> {}]
Start(c) == [kind |-> c[1], n |-> c[2], b |-> <<None, None, None>>]
Count(s) == IF s.kind \in {0, 1, 5} THEN s.n * (s.b[1].on + s.b[2].on + s.b[3].on) ELSE 0
Tell(t, r) == Ok(t, r \o <<Count(t), 0>>)
At(m, k) == IF \E e \in m : e[1] = k THEN (CHOOSE e \in m : e[1] = k)[2] ELSE 0
Put(m, k, v) == { e \in m : e[1] # k } \cup (IF v = 0 THEN {} ELSE { <<k, v>> })
Step(s, op, a) ==
  LET i == a[1] + 1 IN
  CASE op = "mk" -> Tell([s EXCEPT !.b[i] = [on |-> 1, m |-> {}]], <<>>)
    [] op = "del" -> Tell([s EXCEPT !.b[i] = None], <<>>)
    [] op \in {"set", "poke"} -> Tell([s EXCEPT !.b[i].m = Put(@, a[2], a[3])], <<>>)
    [] op = "get" -> LET v == At(s.b[i].m, a[2]) IN Tell(s, <<v, v, v, v>>)
    \* a copy is another buffer with the same elements (a class may also not offer it)
    [] op \in {"cpy", "asg"} -> Tell([s EXCEPT !.b[i] = s.b[a[2] + 1]], <<1>>) \cup Tell(s, <<0>>)
On(s) == { i \in 0..2 : s.b[i + 1].on = 1 }
Menu(s) ==
  { <<"mk", <<i>>>> : i \in (0..2) \ On(s) } \cup { <<"del", <<i>>>> : i \in On(s) }
  \cup { <<"set", <<i, k, v>>>> : i \in On(s), k \in {0, s.n - 1}, v \in 1..2 } \cup { <<"get", <<i, k>>>> : i \in On(s), k \in {0, s.n - 1} }
  \cup { <<"cpy", <<i, j>>>> : i \in (0..2) \ On(s), j \in On(s) } \cup { <<"asg", <<i, j>>>> : i \in On(s), j \in On(s) }
Configs == { <<0, 4>>, <<5, 1>> }
BigConfigs == Configs
Inv(s) == \A b \in Range(s.b) : \A e, f \in b.m : e[1] = f[1] => e = f
(* what is not named in a call keeps its elements *)
Safe(s, op, a, r, t) == \A i \in 0..2 : i # a[1] => t.b[i + 1] = s.b[i + 1]
=============================================================================
