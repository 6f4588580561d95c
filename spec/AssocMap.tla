------------------------------ MODULE AssocMap ------------------------------
(* util/sequential_map.hh: SequentialMap, a map of at most `cap` entries kept *)
(* in insertion order.  operator[] on a full map re-keys the last entry       *)
(* ("Overflow is handled by overwriting the last value added").               *)
(* m: entries <<key, value>> in order, keys unique.                           *)
EXTENDS Common

Start(c) == [cap |-> c[1], m |-> <<>>]
Idx(m, k) == IF \E i \in 1..Len(m) : m[i][1] = k THEN CHOOSE i \in 1..Len(m) : m[i][1] = k ELSE 0
(* all entries; of a great many only those around the ends and around the widths of an index *)
Shown(m) == LET n == Len(m) IN IF n <= 1000 THEN m ELSE [j \in 1..7 |-> m[Min2(n, <<1, 2, 256, 65535, 65536, 65537, n>>[j])]]
Flat(m) == FlattenSeq(Shown(m))
Obs(t) == <<Len(t.m), t.cap, B2I(t.m = <<>>), B2I(Len(t.m) = t.cap)>> \o Flat(t.m)
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

Step(s, op, a) ==
  LET n == Len(s.m) i == Idx(s.m, a[1]) IN
  CASE op = "set" ->                              \* map[k] = v
         Res([s EXCEPT !.m = IF i > 0 THEN [@ EXCEPT ![i] = <<a[1], a[2]>>]
                             ELSE IF n < s.cap THEN Append(@, <<a[1], a[2]>>)
                             ELSE [@ EXCEPT ![n] = <<a[1], a[2]>>]], <<>>)
    [] op = "insert" ->                           \* result: inserted?, key found at the returned iterator?, its value
         IF i > 0 THEN Res(s, <<0, 1, s.m[i][2]>>)
         ELSE IF n < s.cap THEN Res([s EXCEPT !.m = Append(@, <<a[1], a[2]>>)], <<1, 1, a[2]>>)
         ELSE Res(s, <<0, 0, 0>>)
    \* a batch of insertions of the new keys a[1], a[1] + 1, ...
    [] op = "inserts" -> LET k == Min2(a[3], s.cap - n) IN
         IF \E j \in 0..(a[3] - 1) : Idx(s.m, a[1] + j) > 0 THEN {}
         ELSE Res([s EXCEPT !.m = @ \o [j \in 1..k |-> <<a[1] + j - 1, Batch(a[2], j - 1)>>]], <<k>>)
    [] op = "find" -> Res(s, IF i > 0 THEN <<1, i - 1, s.m[i][2], 1>> ELSE <<0, 0, 0, 0>>)
    [] op = "cget" -> Res(s, IF i > 0 THEN <<s.m[i][2]>> ELSE <<0>>)     \* const operator[]
    [] op = "erase" -> IF i = 0 THEN Res(s, <<0>>)
                       ELSE Res([s EXCEPT !.m = TakeN(@, i - 1) \o DropN(@, i)], <<1>>)
    \* erase, with the key that the map itself holds at position a[1]
    [] op = "erase_own" -> IF a[1] >= n THEN {} ELSE Res([s EXCEPT !.m = TakeN(@, a[1]) \o DropN(@, a[1] + 1)], <<1>>)
    [] op = "clear" -> Res([s EXCEPT !.m = <<>>], <<>>)

Menu(s) ==
  { <<o, <<k, v>> >> : o \in {"set", "insert"}, k \in 1..4, v \in 1..2 }
  \cup { <<o, <<k>> >> : o \in {"find", "cget", "erase"}, k \in 1..4 } \cup { <<"clear", <<0>> >> } \cup { <<"erase_own", <<j>> >> : j \in 0..(Len(s.m) - 1) }
Configs == { <<1>>, <<2>>, <<3>> }
BigConfigs == { <<1>>, <<2>>, <<3>>, <<4>> }

Inv(s) == /\ Len(s.m) <= s.cap
          /\ Cardinality({ s.m[i][1] : i \in 1..Len(s.m) }) = Len(s.m)     \* no key twice
Val(s, k) == LET i == Idx(s.m, k) IN IF i = 0 THEN <<>> ELSE <<s.m[i][2]>>
Safe(s, op, a, r, t) ==
  /\ (op = "set") => Val(t, a[1]) = <<a[2]>>
  /\ (op = "insert" /\ r[1] = 1) => Val(s, a[1]) = <<>> /\ Val(t, a[1]) = <<a[2]>>
  /\ (op = "insert" /\ r[1] = 0) => s = t
  /\ (op = "erase") => Val(t, a[1]) = <<>>
  /\ (op \in {"insert", "erase"}) => \A k \in 0..9 : k # a[1] => Val(t, k) = Val(s, k)
=============================================================================
