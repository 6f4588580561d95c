------------------------------ MODULE TsPool ------------------------------
(* util/thread_safe_pool.hh used by one thread (concurrency: PoolLin.tla).    *)
(* Any free slot may be handed out.  val: what each slot holds.               *)
EXTENDS Common

Start(c) == [n |-> c[1], taken |-> {}, val |-> Rep(0, c[1])]
Obs(t) == <<t.n>> \o [i \in 1..t.n |-> B2I(i - 1 \in t.taken)] \o FlattenSeq([i \in 1..t.n |-> <<t.val[i], 1>>])   \* 1: const access gives the same object
Out(t, r) == [s |-> t, r |-> r \o Obs(t)]
Step(s, op, a) ==
  CASE op = "create" -> IF Cardinality(s.taken) = s.n THEN { Out(s, <<-1>>) }
                        ELSE { Out([s EXCEPT !.taken = @ \cup {i}], <<i>>) : i \in (0..(s.n - 1)) \ s.taken }
    \* a batch of creations: which slots it takes shows in the observation, unless all are taken
    [] op = "creates" -> LET k == Min2(a[1], s.n - Cardinality(s.taken)) IN
         IF k < s.n - Cardinality(s.taken) THEN {} ELSE { Out([s EXCEPT !.taken = 0..(s.n - 1)], <<k, 1>>) }
    [] op = "destroy" -> { Out([s EXCEPT !.taken = @ \ {a[1]}], <<B2I(a[1] \in s.taken)>>) }
    [] op = "is_used" -> { Out(s, <<B2I(a[1] \in s.taken)>>) }
    [] op = "store" -> { Out([s EXCEPT !.val[a[1] + 1] = a[2]], <<>>) }
    [] op = "clear" -> { Out([s EXCEPT !.taken = {}, !.val = Rep(0, s.n)], <<>>) }
Menu(s) == { <<"create", <<>> >>, <<"clear", <<>> >> } \cup { <<"destroy", <<i>> >> : i \in 0..s.n \cup {-1, -2} } \cup { <<"creates", <<s.n + 1>> >> }
           \cup { <<"is_used", <<s.n>> >>, <<"is_used", <<-1>> >>, <<"store", <<s.n - 1, 3>> >> }
Configs == { <<1>>, <<2>>, <<3>>, <<4>> }
BigConfigs == Configs \cup { <<5>> }
Inv(s) == s.taken \subseteq 0..(s.n - 1)
Safe(s, op, a, r, t) ==
  op = "create" => IF r[1] = -1 THEN Cardinality(s.taken) = s.n /\ t = s
                   ELSE r[1] \notin s.taken /\ t.taken = s.taken \cup {r[1]}
===========================================================================
