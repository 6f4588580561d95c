------------------------------- MODULE Pool -------------------------------
(* util/pool.hh: hands out pointers to at most n objects.  Slots are named   *)
(* 0..n-1 by the driver in the order in which they are first seen, so the    *)
(* specification does not care WHICH free slot a create picks.               *)
(* val: live slot -> value its owner last stored (owner data is never        *)
(* disturbed by calls for other slots).                                      *)
EXTENDS Common

Start(c) == [n |-> c[1], val |-> <<>>]          \* <<>>: the function with empty domain
Live(s) == DOMAIN s.val
Flat(s) == FlattenSeq([i \in 1..s.n |-> IF i - 1 \in Live(s) THEN <<1, s.val[i - 1]>> ELSE <<0, 0>>])
(* observation: for every slot whether the driver holds it, and the value found in it *)
Obs(t) == Flat(t)
Out(t, r) == [s |-> t, r |-> r \o Obs(t)]
Without(f, i) == [x \in DOMAIN f \ {i} |-> f[x]]

Step(s, op, a) ==
  CASE op = "create" ->            \* a default-constructed object (value 0), or refusal
         IF Cardinality(Live(s)) = s.n THEN {Out(s, <<-1>>)}
         ELSE { Out([s EXCEPT !.val = (i :> 0) @@ @], <<i>>) : i \in (0..(s.n - 1)) \ Live(s) }
    [] op = "create_ow" ->         \* create_for_overwrite, then the owner stores a[1]
         IF Cardinality(Live(s)) = s.n THEN {Out(s, <<-1>>)}
         ELSE { Out([s EXCEPT !.val = (i :> a[1]) @@ @], <<i>>) : i \in (0..(s.n - 1)) \ Live(s) }
    \* as many creations as (at least) there are free slots
    [] op = "creates" -> IF a[1] < s.n - Cardinality(Live(s)) THEN {}
         ELSE { Out([s EXCEPT !.val = [i \in 0..(s.n - 1) |-> IF i \in Live(s) THEN @[i] ELSE 0]], <<s.n - Cardinality(Live(s))>>) }
    [] op = "write" ->             \* by the owner (skipped by the driver when nobody owns it)
         {Out(IF a[1] \in Live(s) THEN [s EXCEPT !.val[a[1]] = a[2]] ELSE s, <<>>)}
    [] op = "destroy" ->           \* of a slot pointer seen before (live or not)
         IF a[1] \in Live(s) THEN {Out([s EXCEPT !.val = Without(@, a[1])], <<1>>)} ELSE {Out(s, <<0>>)}
    [] op = "destroy_foreign" -> {Out(s, <<0>>)}     \* null, or a pointer that is not from this pool

Menu(s) == { <<"creates", <<s.n>> >>, <<"create", <<>> >>, <<"create_ow", <<1>> >> } \cup
           { <<"write", <<i, 2>> >> : i \in Live(s) } \cup
           { <<"destroy", <<i>> >> : i \in 0..(s.n - 1) } \cup { <<"destroy_foreign", <<k>> >> : k \in 0..1 }
Configs == { <<1>>, <<2>>, <<3>> }
BigConfigs == { <<1>>, <<2>>, <<3>>, <<4>> }
Inv(s) == Live(s) \subseteq 0..(s.n - 1)
Safe(s, op, a, r, t) ==
  /\ op \in {"create", "create_ow"} => IF r[1] = -1 THEN Cardinality(Live(s)) = s.n /\ t = s
                                       ELSE r[1] \notin Live(s) /\ Live(t) = Live(s) \cup {r[1]}
  /\ \A i \in Live(s) \cap Live(t) : (op # "write" \/ a[1] # i) => t.val[i] = s.val[i]
===========================================================================
