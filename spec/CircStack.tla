----------------------------- MODULE CircStack -----------------------------
(* util/circular_stack.hh: a bounded LIFO that drops its OLDEST element when *)
(* pushed while full.  State: q (bottom first) and the capacity.             *)
(* Configuration <<cap, v1..vk>>: constructed from the values v1..vk.        *)
EXTENDS Common

Start(c) == [cap |-> c[1], q |-> DropN(c, 1)]
Obs(t) == <<Len(t.q), t.cap, B2I(t.q = <<>>)>> \o
          (IF t.q = <<>> THEN <<0, 0>> ELSE <<1, Last1(t.q)>>)      \* back()
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

Step(s, op, a) ==
  CASE op = "push"  -> Res([s EXCEPT !.q = (IF Len(@) < s.cap THEN @ ELSE Tail(@)) \o <<a[1]>>], <<>>)
    \* batches (no more pops than there are elements)
    [] op = "pushes" -> LET m == s.q \o [j \in 1..a[2] |-> Batch(a[1], j - 1)] IN Res([s EXCEPT !.q = DropN(m, Max2(0, Len(m) - s.cap))], <<>>)
    [] op = "pops"  -> IF a[1] > Len(s.q) THEN {} ELSE Res([s EXCEPT !.q = TakeN(@, Len(@) - a[1])], [i \in 1..a[1] |-> s.q[Len(s.q) + 1 - i]])
    [] op = "pop"   -> IF s.q = <<>> THEN Res(s, <<0, 0>>)
                       ELSE Res([s EXCEPT !.q = Front(@)], <<1, Last1(s.q)>>)
    [] op = "popz"  -> IF s.q = <<>> THEN Res(s, <<0>>)
                       ELSE Res([s EXCEPT !.q = Front(@)], <<Last1(s.q)>>)
    [] op = "clear" -> Res([s EXCEPT !.q = <<>>], <<>>)
    [] op = "look"  -> Res(s, <<>>)

Menu(s) == { <<"push", <<v>> >> : v \in 1..2 } \cup
           (IF s.cap = 3 THEN { <<"pushes", <<1, k>> >> : k \in {2, 4} } \cup { <<"pops", <<k>> >> : k \in 0..Len(s.q) } ELSE {}) \cup
           { <<"pop", <<>> >>, <<"popz", <<>> >>, <<"clear", <<>> >>, <<"look", <<>> >> }
Configs == { <<1>>, <<2>>, <<3>>, <<5>>, <<3, 1>>, <<3, 2, 1>>, <<3, 1, 2, 1>>, <<1, 2>>, <<2, 1, 2>> }
BigConfigs == Configs \cup { <<7>>, <<8>> }

Inv(s) == Len(s.q) <= s.cap
(* LIFO: a successful pop returns the newest surviving element; a push adds   *)
(* exactly its argument on top and removes at most the oldest one.            *)
Safe(s, op, a, r, t) ==
  /\ (op = "push") => /\ Last1(t.q) = a[1]
                      /\ IsSuffix(Front(t.q), s.q)
                      /\ Len(t.q) = Min2(Len(s.q) + 1, s.cap)
  /\ (op \in {"pop", "popz"} /\ s.q # <<>>) => s.q = t.q \o <<Last1(s.q)>>
=============================================================================
