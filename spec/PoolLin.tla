------------------------------ MODULE PoolLin ------------------------------
(* util/thread_safe_pool.hh as a concurrent object.  own[t]: the slots thread  *)
(* t created and has not given back, newest last; val: what owners stored.     *)
(* seen[t]: slots that were taken at some moment of t's current call.          *)
(* Configuration <<n, k0, k1, k2, k3, slots..>>: n slots; thread t starts with  *)
(* kt of them, which ones is listed, thread by thread.                         *)
EXTENDS Common
CONSTANT Weak

Pre(c, t) == FoldSeq(LAMBDA x, acc : acc + x, 0, SubSeq(c, 2, t + 1))     \* slots of the threads below t
Start(c) == [n |-> c[1],
             own |-> [t \in 0..3 |-> SubSeq(c, 6 + Pre(c, t), 5 + Pre(c, t + 1))],
             taken |-> { c[i] : i \in 6..Len(c) }, val |-> [i \in 0..(c[1] - 1) |-> -2],
             seen |-> [t \in 0..3 |-> {}]]
Call(s, t, op, a) == IF op = "create" THEN [s EXCEPT !.seen[t] = s.taken] ELSE s
(* every effect is noticed by the calls in progress *)
Notice(s) == [s EXCEPT !.seen = [t \in 0..3 |-> @[t] \cup s.taken]]
Res(s, r) == [s |-> s, r |-> r]
Mine(s, t) == Last1(s.own[t])
InOwn(s, i) == \E t \in 0..3 : \E k \in 1..Len(s.own[t]) : s.own[t][k] = i

Step(s, t, op, a) ==
  CASE op = "create" ->
         { Res(Notice([s EXCEPT !.taken = @ \cup {i}, !.own[t] = Append(@, i)]), <<i>>)
             : i \in (0..(s.n - 1)) \ s.taken }
         \* refused: every slot was seen taken at some moment of this call
         \cup (IF Weak \/ s.seen[t] = 0..(s.n - 1) THEN { Res(s, <<-1>>) } ELSE {})
    [] op = "destroy_mine" ->
         IF s.own[t] = <<>> THEN { Res(s, <<-1, 0>>) }
         ELSE LET i == Mine(s, t) IN
              { Res([s EXCEPT !.taken = @ \ {i}, !.own[t] = Front(@), !.val[i] = -2], <<i, B2I(i \in s.taken)>>) }
    \* by number, by anyone (never mixed with owners' data): exactly one destroyer of a taken slot succeeds
    [] op = "destroy" -> { Res([s EXCEPT !.taken = @ \ {a[1]}], <<B2I(a[1] \in s.taken)>>) }
    [] op = "is_used" -> IF Weak THEN { Res(s, <<b>>) : b \in {0, 1} } ELSE { Res(s, <<B2I(a[1] \in s.taken)>>) }
    [] op = "store" -> { Res(IF s.own[t] = <<>> THEN s ELSE [s EXCEPT !.val[Mine(s, t)] = a[1]], <<>>) }
    \* the owner finds what it stored (-2: nothing yet, any value but a torn one)
    [] op = "fetch" -> IF s.own[t] = <<>> THEN { Res(s, <<-1>>) }
                       ELSE IF s.val[Mine(s, t)] # -2 THEN { Res(s, <<s.val[Mine(s, t)]>>) }
                       ELSE { Res(s, <<v>>) : v \in 0..99 }
    \* clear() by a thread that owns every taken slot gives them all back (it is not one step in the code:
    \* only programs in which another thread makes at most one call to create during it are judged by this)
    [] op = "clear" -> { Res([s EXCEPT !.taken = @ \ { s.own[t][k] : k \in 1..Len(s.own[t]) }, !.own[t] = <<>>,
                                       !.val = [i \in DOMAIN @ |-> IF \E k \in 1..Len(s.own[t]) : s.own[t][k] = i THEN -2 ELSE @[i]]], <<>>) }
(* quiescent: the flags tell exactly the taken slots, and exactly the free ones can be had *)
End(s, r) == LET free == s.n - Cardinality(s.taken) IN
             r = [i \in 1..s.n |-> B2I(i - 1 \in s.taken)] \o Rep(1, free) \o <<free>>
Inv(s) == /\ s.taken \subseteq 0..(s.n - 1)
SC == FALSE
WK == TRUE
============================================================================
