------------------------------ MODULE StatStr ------------------------------
(* util/static_string.hh: two strings a, b of capacities n, m.  A string is   *)
(* the text up to its first NUL; copying stores the longest prefix that fits. *)
EXTENDS Common

Start(c) == [n |-> c[1], m |-> c[2], a |-> <<>>, b |-> <<>>]
UpTo0(t) == LET z == { i \in 1..Len(t) : t[i] = 0 } IN IF z = {} THEN t ELSE TakeN(t, Min(z) - 1)
Fit(t, n) == UpTo0(TakeN(t, n))
Obs1(t, n) == <<Len(t)>> \o t                       \* c_str()
              \o <<Len(t), Len(t), n - Len(t), n>>    \* length size available capacity
              \o <<Len(t)>> \o t                      \* begin()..end()
              \o <<Len(t)>> \o t                      \* as string_view
Obs(s) == Obs1(s.a, s.n) \o Obs1(s.b, s.m) \o <<B2I(s.a = s.b), B2I(s.b = s.a)>>
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

Step(s, op, x) ==
  CASE op \in {"copy_c", "copy_sv", "ctor_c", "ctor_sv", "vcopy_c"} -> Res([s EXCEPT !.a = Fit(x, s.n)], <<>>)
    \* copying (from a position of) its own text
    [] op \in {"own_c", "own_sv"} -> IF x[1] > Len(s.a) THEN {} ELSE Res([s EXCEPT !.a = DropN(@, x[1])], <<>>)
    [] op = "bcopy_c" -> Res([s EXCEPT !.b = Fit(x, s.m)], <<>>)
    [] op = "bcopy_sv" -> Res([s EXCEPT !.b = Fit(x, s.m)], <<>>)
    [] op = "clear" -> Res([s EXCEPT !.a = <<>>], <<>>)
    [] op \in {"copy_b", "vcopy_b", "vcopy_vb"} -> Res([s EXCEPT !.a = Fit(s.b, s.n)], <<>>)
    [] op = "bcopy_a" -> Res([s EXCEPT !.b = Fit(s.a, s.m)], <<>>)
    [] op = "is_equal" -> Res(s, <<B2I(s.a = UpTo0(x))>>)

Texts(s) == UNION { [1..k -> 97..98] : k \in 0..2 } \cup { <<97, 98, 97>>, <<97, 97, 97>>, <<97, 98, 97, 98, 97>> }
Menu(s) == { <<o, x>> : o \in {"copy_c", "copy_sv", "bcopy_sv", "is_equal"}, x \in Texts(s) }
           \cup { <<o, <<97, 98, 97, 97>> >> : o \in {"ctor_c", "ctor_sv", "vcopy_c", "bcopy_c"} }
           \cup { <<"copy_sv", <<97, 0, 98>> >> } \cup { <<o, <<k>> >> : o \in {"own_c", "own_sv"}, k \in 0..Len(s.a) }
           \cup { <<o, <<>> >> : o \in {"clear", "copy_b", "vcopy_b", "vcopy_vb", "bcopy_a"} }
Configs == { <<0, 1>>, <<1, 3>>, <<3, 2>>, <<2, 0>>, <<3, 3>> }
BigConfigs == Configs \cup { <<1, 4>>, <<4, 2>> }

Inv(s) == Len(s.a) <= s.n /\ Len(s.b) <= s.m
Prefix(p, t) == Len(p) <= Len(t) /\ \A i \in 1..Len(p) : p[i] = t[i]
Safe(s, op, x, r, t) ==
  /\ \A i \in 1..Len(t.a) : t.a[i] # 0
  /\ op \in {"copy_c", "copy_sv"} => Prefix(t.a, x) /\ (Len(t.a) < Min2(s.n, Len(x)) => x[Len(t.a) + 1] = 0)
  /\ op \in {"copy_b"} => t.b = s.b /\ Prefix(t.a, s.b)
=============================================================================
