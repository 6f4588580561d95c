------------------------------ MODULE FixedVec ------------------------------
(* util/fixed_vector.hh: a vector of at most `cap` elements in place.        *)
(* Configuration <<cap, v1..vk>>: constructed from the values v1..vk.        *)
(* Out-of-capacity requests are refused or clamped, never executed.          *)
EXTENDS Common

Start(c) == [cap |-> c[1], v |-> DropN(c, 1)]
Obs(t) == <<Len(t.v), t.cap, t.cap - Len(t.v), IF t.v = <<>> THEN 0 ELSE Last1(t.v)>> \o
          (IF t.cap <= 1000 THEN t.v
           ELSE LET P == { i \in {1, 2, 65535, 65536, 65537, 65538, Len(t.v) - 1, Len(t.v)} : i \in 1..Len(t.v) } IN
                [k \in 1..Cardinality(P) |-> t.v[SetToSortSeq(P, LAMBDA x, y : x < y)[k]]])
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }
Grow(v, n, x) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE x]

Step(s, op, a) ==
  LET n == Len(s.v) IN
  CASE op = "push" -> IF n < s.cap THEN Res([s EXCEPT !.v = Append(@, a[1])], <<1>>) ELSE Res(s, <<0>>)
    \* a batch of appends
    [] op = "pushes" -> LET k == Min2(a[2], s.cap - n) IN Res([s EXCEPT !.v = @ \o [j \in 1..k |-> Batch(a[1], j - 1)]], <<k>>)
    [] op = "pop" -> IF n = 0 THEN Res(s, <<0>>) ELSE Res([s EXCEPT !.v = Front(@)], <<Last1(s.v)>>)
    \* resize_ow: resize_for_overwrite(k), after which the caller overwrites the new elements with x
    [] op \in {"resize", "resize_ow"} ->
         LET k == IF a[1] < 0 THEN s.cap ELSE Min2(a[1], s.cap) IN     \* negative: huge
         Res([s EXCEPT !.v = Grow(s.v, k, a[2])], <<B2I(a[1] \in 0..s.cap)>>)
    \* resize(k): new elements are default ones
    [] op = "resize_def" -> LET k == IF a[1] < 0 THEN s.cap ELSE Min2(a[1], s.cap) IN
         Res([s EXCEPT !.v = Grow(s.v, k, 0)], <<B2I(a[1] \in 0..s.cap)>>)
    \* push_ow: push_back_for_overwrite() and, if granted, overwrite of the granted slot
    [] op = "push_ow" -> IF n < s.cap THEN Res([s EXCEPT !.v = Append(@, a[1])], <<n>>) ELSE Res(s, <<s.cap>>)
    [] op = "insert" -> IF n >= s.cap \/ a[1] > n THEN Res(s, <<>>)
                        ELSE Res([s EXCEPT !.v = TakeN(@, a[1]) \o <<a[2]>> \o DropN(@, a[1])], <<>>)
    \* the same with an element of the vector itself as the value
    [] op = "insert_own" -> IF a[2] >= n THEN {} ELSE IF n >= s.cap \/ a[1] > n THEN Res(s, <<>>)
                        ELSE Res([s EXCEPT !.v = TakeN(@, a[1]) \o <<s.v[a[2] + 1]>> \o DropN(@, a[1])], <<>>)
    [] op = "push_own" -> IF a[1] >= n THEN {} ELSE IF n < s.cap THEN Res([s EXCEPT !.v = Append(@, s.v[a[1] + 1])], <<1>>) ELSE Res(s, <<0>>)
    [] op = "resize_own" -> IF a[2] >= n THEN {} ELSE LET k == Min2(a[1], s.cap) IN
         Res([s EXCEPT !.v = IF k <= n THEN TakeN(@, k) ELSE @ \o Rep(s.v[a[2] + 1], k - n)], <<B2I(k = a[1])>>)
    [] op = "erase" -> IF a[1] >= n THEN Res(s, <<>>)
                       ELSE Res([s EXCEPT !.v = TakeN(@, a[1]) \o DropN(@, a[1] + 1)], <<>>)
    \* erase(first, last) with 0 <= first, last <= size
    [] op = "erase_range" -> IF a[2] <= a[1] THEN Res(s, <<>>)
                       ELSE Res([s EXCEPT !.v = TakeN(@, a[1]) \o DropN(@, a[2])], <<>>)
    [] op = "set" -> Res([s EXCEPT !.v[a[1] + 1] = a[2]], <<>>)
    [] op = "clear" -> Res([s EXCEPT !.v = <<>>], <<>>)

Menu(s) ==
  LET n == Len(s.v) IN
  { <<"push", <<v>> >> : v \in 1..2 } \cup { <<"push_ow", <<2>> >>, <<"pop", <<>> >>, <<"clear", <<>> >> }
  \cup { <<"insert", <<i, v>> >> : i \in 0..(s.cap + 1), v \in 1..2 }
  \cup { <<"insert_own", <<i, j>> >> : i \in 0..n, j \in 0..(n - 1) } \cup { <<"push_own", <<j>> >> : j \in 0..(n - 1) }
  \cup { <<"resize_own", <<k, j>> >> : k \in 0..(s.cap + 1), j \in 0..(n - 1) }
  \cup { <<"erase", <<i>> >> : i \in 0..(s.cap + 1) }
  \cup { <<"erase_range", <<i, j>> >> : i \in 0..n, j \in 0..n }
  \cup { <<o, <<k, 1>> >> : k \in -2..(s.cap + 2), o \in {"resize", "resize_ow"} }
  \cup { <<"resize_def", <<k>> >> : k \in {-1} \cup 0..(s.cap + 1) }
  \cup { <<"set", <<i - 1, 2>> >> : i \in 1..n }
Configs == { <<1>>, <<2>>, <<3>>, <<4>>, <<4, 1, 2>>, <<3, 1, 2, 1>>, <<4, 2>> }
BigConfigs == Configs \cup { <<6>>, <<7>> }

Inv(s) == Len(s.v) <= s.cap
(* elements outside the affected range keep their value and relative order   *)
Safe(s, op, a, r, t) ==
  /\ (op \in {"erase", "erase_range"} /\ t # s) =>
        LET d == Len(s.v) - Len(t.v) IN
        \A i \in 1..Len(t.v) : t.v[i] = s.v[IF i <= a[1] THEN i ELSE i + d]
  /\ (op \in {"insert", "insert_own"} /\ t # s) =>
        \A i \in 1..Len(s.v) : s.v[i] = t.v[IF i <= a[1] THEN i ELSE i + 1]
  /\ (op \in {"push", "push_ow", "insert"} /\ Len(s.v) = s.cap) => t = s
=============================================================================
