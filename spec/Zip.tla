-------------------------------- MODULE Zip --------------------------------
(* util/zip.hh, util/countzip.hh.  State: the contents of the four ranges      *)
(* (0 vector, 1 deque, 2 array of three, 3 vector of bytes; 4 is a view of 0). *)
EXTENDS Common

Start(c) == [c |-> << <<>>, <<>>, <<0, 0, 0>>, <<>> >>]
Of(k) == IF k = 4 THEN 1 ELSE k + 1
(* walk: a = <<variant, mode, write, ranges...>> *)
Shortest(s, ks) == Min({ Len(s.c[Of(ks[i])]) : i \in DOMAIN ks })
(* what position p (from zero) yields: its number in the counting variants, then each element and 1: it is the original *)
(* w: each visited element was incremented just after it was yielded, in order (one range may take part twice)           *)
Before(ks, i) == Cardinality({ j \in 1..(i - 1) : Of(ks[j]) = Of(ks[i]) })
Yield(s, variant, ks, p, w) ==
   (IF variant = 0 THEN <<>> ELSE <<p>>) \o
   FlattenSeq([i \in 1..Len(ks) |-> << s.c[Of(ks[i])][p + 1] + w * Before(ks, i), 1 >>])
Walked(s, variant, ks, w) == FlattenSeq([p \in 1..Shortest(s, ks) |-> Yield(s, variant, ks, p - 1, w)])
Times(ks, k) == Cardinality({ i \in DOMAIN ks : Of(ks[i]) = k })
Written(s, ks) == [c |-> [k \in 1..4 |-> [p \in 1..Len(s.c[k]) |-> s.c[k][p] + (IF p <= Shortest(s, ks) THEN Times(ks, k) ELSE 0)]]]

Step(s, op, a) ==
  CASE op = "set" -> Ok([c |-> [s.c EXCEPT ![a[1] + 1] = Tail(a)]], <<>>)
    [] op = "get" -> Ok(s, FlattenSeq(s.c))
    \* ranges of n and m elements, element i is (7i+1)%1000 and (11i+2)%1000: number of positions, number of wrong ones, a window
    [] op = "long" -> LET n == Min2(a[2], a[3]) IN
         Ok(s, <<n, 0>> \o FlattenSeq([j \in 1..Max2(0, Min2(a[5], n - a[4])) |-> LET i == a[4] + j - 1 IN <<i, (7 * i + 1) % 1000, (11 * i + 2) % 1000>>]))
    [] op = "walk" ->
         LET ks == DropN(a, 3)  n == Shortest(s, ks)
             w == IF a[2] = 0 THEN a[3] ELSE 0
             t == IF w = 1 THEN Written(s, ks) ELSE s
         IN Ok(t, <<n>> \o Walked(s, a[1], ks, w) \o (IF a[2] = 0 THEN Walked(t, a[1], ks, 0) \o <<n, 1>> ELSE <<>>))

Ranges == { <<0>>, <<1>>, <<2>>, <<4>>, <<0, 1>>, <<1, 0>>, <<0, 2>>, <<2, 0>>, <<0, 3>>, <<3, 1>>, <<0, 0>>, <<4, 1>>,
            <<0, 1, 2>>, <<2, 1, 3>>, <<3, 0, 1>>, <<3, 0, 1, 2>> }
Some(k) == [i \in 1..k |-> i]
Small(s) == \A k \in 1..4 : \A p \in DOMAIN s.c[k] : s.c[k][p] <= 3
Menu(s) ==
  { <<"set", <<k>> \o Some(n)>> : k \in {0, 1, 3}, n \in 0..(IF s.c[3] = <<0, 0, 0>> THEN 4 ELSE 3) }
  \cup { <<"walk", <<v, m, 0>> \o ks>> : v \in 0..2, m \in 0..2, ks \in Ranges }
  \cup { <<"get", <<>>>> }
  \cup (IF s.c[1] # <<>> THEN {} ELSE { <<"long", <<v, n, 70000, n - 4, 5>>>> : v \in 0..2, n \in {250, 300, 66000, 71000} })
Configs == { <<0>> }
BigConfigs == Configs
Inv(s) == TRUE
(* declared independently of Walked: every yielded element is the original at a position common to all ranges, no more, no fewer *)
Safe(s, op, a, r, t) ==
  op = "walk" =>
    LET ks == DropN(a, 3)  per == (IF a[1] = 0 THEN 0 ELSE 1) + 2 * Len(ks) IN
    /\ \A i \in DOMAIN ks : r[1] <= Len(s.c[Of(ks[i])])
    /\ \E i \in DOMAIN ks : r[1] = Len(s.c[Of(ks[i])])
    /\ Len(r) = 1 + per * r[1] + (IF a[2] = 0 THEN per * r[1] + 2 ELSE 0)
=============================================================================
