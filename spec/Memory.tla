------------------------------- MODULE Memory -------------------------------
(* util/mem_test.hh.  Pages of 1024 words; map[p + 1] is the storage page      *)
(* behind page p (two with the same one: a stuck address line).  A test of     *)
(* words x..y-1 succeeds iff every word keeps what was written to it until it  *)
(* is read back, and it touches no other storage.  A large memory is given by  *)
(* its number of pages and the address line that is stuck (or -1).             *)
EXTENDS Common

W == 1024
Start(c) == IF c[1] >= 0 THEN [map |-> c, line |-> -2] ELSE [map |-> <<>>, line |-> c[3]]
Pages(s) == 0..(Len(s.map) - 1)
(* offsets of page p under test: from..to-1 *)
From(p, x) == Clamp(x - p * W, 0, W)
To(p, y) == Clamp(y - p * W, 0, W)
Alias(s, x, y) == \E p \in Pages(s) : \E q \in Pages(s) : q > p /\ s.map[p + 1] = s.map[q + 1] /\ Max2(From(p, x), From(q, x)) < Min2(To(p, y), To(q, y))
(* is the storage of word v that of a word of x..y-1? *)
Hit(s, v, x, y) == \E p \in Pages(s) : s.map[p + 1] = s.map[(v \div W) + 1] /\ From(p, x) <= v % W /\ v % W < To(p, y)
(* the first word at or after x whose address has the line set, and that is at least one line after x *)
LineAlias(k, x, y) == LET d == (2 ^ k) * W  m == x + d IN
                      (IF (m \div d) % 2 = 1 THEN m ELSE ((m \div d) + 1) * d) < y
Good(s, x, y) == IF s.line = -2 THEN ~Alias(s, x, y) ELSE IF s.line = -1 THEN TRUE ELSE ~LineAlias(s.line, x, y)
Step(s, op, a) ==
  LET x == a[1]  y == a[2]  backwards == a[3] = 1 /\ x > y IN
  CASE op = "check" -> Ok(s, <<B2I(~backwards /\ Good(s, x, y)), 0>>)
    (* word a[4] inverts a bit whenever it is written *)
    [] op = "flip" -> Ok(s, <<B2I(~backwards /\ Good(s, x, y) /\ ~(IF s.line = -2 THEN Hit(s, a[4], x, y) ELSE x <= a[4] /\ a[4] < y)), 0>>)
    (* with the first write to page a[4], word a[5] changes *)
    [] op = "couple" -> LET first == Max2(x, a[4] * W)
                            trig == first < y /\ first < (a[4] + 1) * W
                        IN Ok(s, <<B2I(~backwards /\ Good(s, x, y) /\ ~(trig /\ Hit(s, a[5], x, first))), 0>>)
Ends == {0, 1, 1023, 1024, 1025, 2500, 4095, 4096}
Menu(s) ==
  { <<"check", <<x, y, b>>>> : x \in Ends, y \in Ends, b \in 0..1 }
  \cup { <<"couple", <<x, y, 0, t, v, 7>>>> : x \in {0, 1000, 2048}, y \in {1024, 2100, 4096}, t \in 1..3, v \in {0, 999, 1000, 1023, 1024, 2047, 2048, 3072, 4095} }
  \cup { <<"flip", <<x[1], x[2], 0, v, b>>>> : x \in { <<0, 3>>, <<1000, 1030>>, <<4090, 4096>> }, v \in {0, 2, 3, 999, 1000, 1024, 4095}, b \in {0, 5, 31} }
Configs == { <<0, 1, 2, 3>>, <<0, 1, 2, 0>>, <<0, 1, 1, 2>>, <<3, 2, 1, 0>> }
BigConfigs == { <<a, b, c, d>> : a, b, c, d \in 0..3 }
Inv(s) == TRUE
(* good memory passes; a test that passes also passes on any part *)
Safe(s, op, a, r, t) ==
  /\ (op = "check" /\ Cardinality({ s.map[p] : p \in DOMAIN s.map }) = 4 /\ a[1] <= a[2]) => r[1] = 1
  /\ (op = "check" /\ r[1] = 1 /\ s.line = -2) => \A x \in { e \in Ends : e >= a[1] } : Good(s, x, a[2])
=============================================================================
