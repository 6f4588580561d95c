------------------------------- MODULE SeqMap -------------------------------
(* util/seq_map.hh.  An insertion-ordered association list of at most `cap`  *)
(* entries.  insert() appends (without looking for duplicates) and refuses   *)
(* when full; overwrite() replaces the value of an existing key, else        *)
(* appends, else evicts the OLDEST entry; get/remove act on the first match. *)
(* m: entries <<key, value>>, oldest first.  Key 0 is the default key.       *)
EXTENDS Common

Start(c) == [cap |-> c[1], m |-> <<>>]
Idx(m, k) == IF \E i \in 1..Len(m) : m[i][1] = k
             THEN CHOOSE i \in 1..Len(m) : m[i][1] = k /\ \A j \in 1..(i - 1) : m[j][1] # k ELSE 0
Keys == 0..5
(* observation after every call: size and, for each key 0..5, presence and value *)
KeyObs(m, k) == LET i == Idx(m, k) IN IF i = 0 THEN <<0, 0>> ELSE <<1, m[i][2]>>
Obs(t) == <<Len(t.m)>> \o KeyObs(t.m, 0) \o KeyObs(t.m, 1) \o KeyObs(t.m, 2) \o KeyObs(t.m, 3) \o KeyObs(t.m, 4) \o KeyObs(t.m, 5)
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

(* Duplicates (insert of a present key): which one get() finds after entries *)
(* were evicted is an artefact of slot numbers, so duplicates are only made  *)
(* while nothing has been evicted (see Menu / the generator).                *)
Step(s, op, a) ==
  LET n == Len(s.m) i == Idx(s.m, a[1]) IN
  CASE op = "insert" -> IF n >= s.cap THEN Res(s, <<0>>) ELSE Res([s EXCEPT !.m = Append(@, <<a[1], a[2]>>)], <<1>>)
    [] op = "overwrite" ->           \* result: the value seen through the returned pointer
         Res([s EXCEPT !.m = IF i > 0 THEN [@ EXCEPT ![i] = <<a[1], a[2]>>]
                             ELSE (IF n < s.cap THEN @ ELSE Tail(@)) \o << <<a[1], a[2]>> >>], <<a[2]>>)
    \* with the value of another key (nothing, if there is none)
    [] op = "overwrite_own" -> LET j == Idx(s.m, a[2]) IN
         Res([s EXCEPT !.m = IF j = 0 THEN @ ELSE IF i > 0 THEN [@ EXCEPT ![i] = <<a[1], s.m[j][2]>>]
                             ELSE (IF n < s.cap THEN @ ELSE Tail(@)) \o << <<a[1], s.m[j][2]>> >>], <<>>)
    \* a batch of overwrites with the new keys a[1], a[1] + 1, ...
    [] op = "overwrites" ->
         IF \E j \in 0..(a[3] - 1) : Idx(s.m, a[1] + j) > 0 THEN {}
         ELSE LET q == s.m \o [j \in 1..a[3] |-> <<a[1] + j - 1, Batch(a[2], j - 1)>>] IN Res([s EXCEPT !.m = DropN(q, Max2(0, Len(q) - s.cap))], <<>>)
    [] op = "get" -> Res(s, KeyObs(s.m, a[1]))
    [] op \in {"remove", "remove_own"} -> IF i = 0 THEN Res(s, <<0>>)
                        ELSE Res([s EXCEPT !.m = TakeN(@, i - 1) \o DropN(@, i)], <<1>>)
    [] op = "remove_last" -> Res([s EXCEPT !.m = IF n = 0 THEN @ ELSE Front(@)], <<>>)

NoDup(s, k) == Idx(s.m, k) = 0
Menu(s) ==
  { <<"overwrite", <<k, v>> >> : k \in 0..3, v \in 1..2 }
  \cup { <<"overwrite_own", <<k, j>> >> : k \in 0..3, j \in 0..3 }
  \cup { <<"insert", <<k, 1>> >> : k \in { k \in 0..3 : NoDup(s, k) \/ Len(s.m) = s.cap } }
  \cup { <<op, <<k>> >> : op \in {"remove", "remove_own"}, k \in 0..3 }
  \cup { <<"remove_last", <<0>> >> }
Configs == { <<1>>, <<2>>, <<3>> }
BigConfigs == { <<1>>, <<2>>, <<3>>, <<4>> }

Inv(s) == Len(s.m) <= s.cap
Safe(s, op, a, r, t) ==
  \* a key other than the one operated on changes only by eviction of the oldest / removal of the last
  /\ \A k \in Keys \ {a[1]} :
        (KeyObs(t.m, k) # KeyObs(s.m, k)) =>
           \/ op \in {"overwrite", "overwrite_own"} /\ Len(s.m) = s.cap /\ s.m[1][1] = k
           \/ op = "overwrites" /\ Len(t.m) = s.cap /\ \E i \in 1..(Len(s.m) + a[3] - s.cap) : s.m[i][1] = k
           \/ op = "remove_last" /\ Last1(s.m)[1] = k
  /\ (op = "overwrite") => KeyObs(t.m, a[1]) = <<1, a[2]>>
  /\ (op \in {"remove", "remove_own"} /\ Cardinality({i \in 1..Len(s.m) : s.m[i][1] = a[1]}) <= 1) => KeyObs(t.m, a[1]) = <<0, 0>>
=============================================================================
