----------------------------- MODULE GreedyPart -----------------------------
(* The partitioning algorithm itself: elements largest first, each to a group   *)
(* with the smallest sum.  Checked for all value lists within the bounds: the    *)
(* result covers every element once and is balanced as stated in C30.            *)
EXTENDS Common
CONSTANTS N, MaxLen, MaxVal, MaxInit
VARIABLES v, ini, left, g
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] >= q[i + 1]
GInit == /\ v \in { q \in UNION { [1..k -> 0..MaxVal] : k \in 0..MaxLen } : Sorted(q) }
         /\ ini \in [1..N -> 0..MaxInit]
         /\ left = v /\ g = [i \in 1..N |-> <<>>]
SumOf(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Tot(i) == ini[i] + SumOf(g[i])
GNext == /\ left # <<>>
         /\ \E i \in 1..N : /\ \A j \in 1..N : Tot(i) <= Tot(j)
                            /\ g' = [g EXCEPT ![i] = Append(@, Head(left))]
         /\ left' = Tail(left) /\ UNCHANGED <<v, ini>>
GSpec == GInit /\ [][GNext]_<<v, ini, left, g>>
Covered == Len(left) + FoldSeq(LAMBDA x, y : y + Len(x), 0, g) = Len(v)
(* beyond what the initial sums force: a group that got anything exceeds another by at most its smallest element *)
Balanced == \A i, j \in 1..N : g[i] # <<>> => Tot(i) - Last1(g[i]) <= Tot(j)
Smallest == \A i \in 1..N : \A k \in 1..Len(g[i]) : Last1(g[i]) <= g[i][k]
=============================================================================
