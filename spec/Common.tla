------------------------------ MODULE Common ------------------------------
(* Shared helpers for all component specifications.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

B2I(b) == IF b THEN 1 ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
AbsV(x) == IF x < 0 THEN -x ELSE x
(* C++ integer division / remainder truncate towards zero *)
CDiv(x, y) == IF (x >= 0) = (y > 0) THEN AbsV(x) \div AbsV(y) ELSE -(AbsV(x) \div AbsV(y))
CRem(x, y) == x - y * CDiv(x, y)
Last1(s) == s[Len(s)]
Rep(x, n) == [i \in 1..n |-> x]
(* SubSeq that is total *)
Slice(s, from, to) == IF from > to THEN <<>> ELSE SubSeq(s, from, to)
DropN(s, n) == Slice(s, n + 1, Len(s))
TakeN(s, n) == Slice(s, 1, Min2(n, Len(s)))
(* the values that a batch of calls starting with v hands in: v, v+1, ... kept in 1..200 *)
Batch(v, j) == 1 + ((v + j - 1) % 200)
Ok(s, r) == { [s |-> s, r |-> r] }
===========================================================================
