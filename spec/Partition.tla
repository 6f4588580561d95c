----------------------------- MODULE Partition -----------------------------
(* util/partition.hh.  Ties leave the result open, so the observed groups are  *)
(* judged: they are what giving each element, largest first, to a group with    *)
(* the smallest sum can produce.  Values are not negative.                      *)
EXTENDS Common

(* c = <<groups, capacity, type>> *)
Start(c) == [n |-> c[1], last |-> [i \in 1..c[1] |-> 0]]
(* calc: a = <<n, v1.., m, i1.., then the result: per group its size and element indices, and 1 if the input is unchanged>> *)
Vals(a) == SubSeq(a, 2, 1 + a[1])
Inits(a) == SubSeq(a, a[1] + 3, a[1] + 2 + a[a[1] + 2])
Result(a) == DropN(a, a[1] + 2 + a[a[1] + 2])
RECURSIVE Groups(_, _)
Groups(q, n) == IF n = 0 THEN <<>> ELSE << SubSeq(q, 2, 1 + q[1]) >> \o Groups(DropN(q, 1 + q[1]), n - 1)
RECURSIVE Parses(_, _)
Parses(q, n) == IF n = 0 THEN q = <<1>> ELSE IF q = <<>> THEN FALSE ELSE IF Len(q) < 1 + q[1] THEN FALSE ELSE Parses(DropN(q, 1 + q[1]), n - 1)

RECURSIVE Play(_, _, _)
(* g: what is left of each group, v: values, sums: sums so far.  Which of several eligible groups is *)
(* served first makes no difference, since values are not negative.                                    *)
Play(g, v, sums) ==
  LET left == { i \in DOMAIN g : g[i] # <<>> }
      big == Max(UNION { { v[g[i][k] + 1] : k \in DOMAIN g[i] } : i \in left })
      least == Min({ sums[i] : i \in DOMAIN sums })
      ok == { i \in left : sums[i] = least /\ v[g[i][1] + 1] = big }
  IN IF left = {} THEN TRUE
     ELSE IF ok = {} THEN FALSE
     ELSE LET i == Min(ok) IN Play([g EXCEPT ![i] = Tail(@)], v, [sums EXCEPT ![i] = @ + big])
(* every element in exactly one group *)
Once(g, n) == LET all == FoldSeq(LAMBDA x, y : y \o x, <<>>, g) IN Len(all) = n /\ { all[k] : k \in DOMAIN all } = 0..(n - 1)
Valid(s, a) == LET q == Result(a)  v == Vals(a)  ini == Inits(a) IN
   IF ~Parses(q, s.n) THEN FALSE
   ELSE LET g == Groups(q, s.n) IN
        IF ~Once(g, Len(v)) THEN FALSE
        ELSE Play(g, v, [i \in 1..s.n |-> IF i <= Len(ini) THEN ini[i] ELSE 0])
Step(s, op, a) ==
  IF op = "look" THEN Ok(s, s.last)      \* the groups stay as they were left
  ELSE IF Valid(s, a) THEN LET q == Result(a) IN { [s |-> [s EXCEPT !.last = SubSeq(q, 1, Len(q) - 1)], r |-> q] } ELSE {}
Menu(s) == {}
Configs == { <<2, 8, 0>> }
BigConfigs == Configs
Inv(s) == TRUE
(* the balance bound: without initial sums no group exceeds another by more than its own smallest element *)
SumOf(g, v) == FoldSeq(LAMBDA x, y : y + v[x + 1], 0, g)
Safe(s, op, a, r, t) ==
  IF op = "look" THEN TRUE ELSE
  LET v == Vals(a)  g == Groups(r, s.n) IN
  IF Inits(a) # <<>> THEN TRUE
  ELSE \A i, j \in 1..s.n : IF g[i] = <<>> THEN TRUE
          ELSE SumOf(g[i], v) - Min({ v[g[i][k] + 1] : k \in DOMAIN g[i] }) <= SumOf(g[j], v)
=============================================================================
