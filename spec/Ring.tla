------------------------------- MODULE Ring -------------------------------
(* util/circular_buffer.hh (kind 0) and circular_buffer_opt.hh (kind 1): a     *)
(* queue of at most n elements; putting on to a full one drops the oldest.     *)
(* Elements sit in n slots; h = slot of the next put, cnt = number of          *)
(* elements, the newest cnt slots before h.  The slots are part of the state   *)
(* because set_head() and fill_buffer() make them observable.                  *)
EXTENDS Common

Start(c) == [kind |-> c[1], n |-> c[2], mem |-> Rep(0, c[2]), h |-> 0, cnt |-> 0]
Tail0(s) == (s.h - s.cnt) % s.n
At(s, i) == s.mem[((Tail0(s) + i) % s.n) + 1]            \* i-th element, 0 = oldest
Queue(s) == [i \in 1..s.cnt |-> At(s, i - 1)]
Obs(t) == <<t.cnt, t.cnt, B2I(t.cnt = 0), B2I(t.cnt = t.n), t.n, t.n, t.h, Tail0(t)>>
          \o (IF t.kind = 1 THEN <<>> ELSE IF t.n <= 1000 THEN Queue(t)
              ELSE LET P == { i \in {0, 1, 65535, 65536, t.cnt - 2, t.cnt - 1} : i >= 0 /\ i < t.cnt } IN
                   [k \in 1..Cardinality(P) |-> At(t, SetToSortSeq(P, LAMBDA x, y : x < y)[k])])      \* peek() every element
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

Step(s, op, a) ==
  CASE op = "put" -> Res([s EXCEPT !.mem[s.h + 1] = a[1], !.h = (@ + 1) % s.n, !.cnt = Min2(@ + 1, s.n)], <<>>)
    \* batches: the last n of the values put survive; the oldest are got first
    [] op = "puts" -> Res([s EXCEPT !.h = (@ + a[2]) % s.n, !.cnt = Min2(@ + a[2], s.n),
                             !.mem = [i \in 1..s.n |-> LET d == (i - 1 - s.h) % s.n IN
                                        IF d < a[2] THEN Batch(a[1], d + s.n * ((a[2] - 1 - d) \div s.n)) ELSE @[i]]], <<>>)
    [] op = "gets" -> LET k == Min2(a[1], s.cnt) IN Res([s EXCEPT !.cnt = @ - k], [i \in 1..k |-> At(s, i - 1)])
    [] op = "get" -> IF s.cnt = 0 THEN Res(s, IF s.kind = 0 THEN <<0>> ELSE <<0, 0>>)
                     ELSE Res([s EXCEPT !.cnt = @ - 1], IF s.kind = 0 THEN <<At(s, 0)>> ELSE <<1, At(s, 0)>>)
    [] op = "first" -> Res(s, IF s.cnt = 0 \/ s.kind = 1 THEN <<>> ELSE <<At(s, 0), 1>>)   \* 1: const access gives the same element
    [] op = "remove_first" -> Res([s EXCEPT !.cnt = Max2(@ - 1, 0)], <<>>)
    [] op = "reset" -> Res([s EXCEPT !.h = Tail0(s), !.cnt = 0], <<>>)
    \* (not while full)
    [] op = "set_head" -> Res([s EXCEPT !.h = a[1], !.cnt = (a[1] - Tail0(s)) % s.n], <<>>)
    [] op = "fill_val" -> Res([s EXCEPT !.mem = Rep(a[1], s.n)], <<>>)
    [] op = "fill_arr" -> Res([s EXCEPT !.mem = a], <<>>)

Menu(s) == { <<"put", <<v>> >> : v \in 1..2 }
           \cup { <<o, <<>> >> : o \in {"get", "first", "remove_first", "reset"} }
           \cup { <<"gets", <<k>> >> : k \in {0, 2} } \cup (IF s.n = 2 THEN { <<"puts", <<1, k>> >> : k \in {0, 1, 3} } ELSE {})
           \cup (IF s.cnt < s.n THEN { <<"set_head", <<k>> >> : k \in 0..(s.n - 1) } ELSE {})
           \cup { <<"fill_val", <<2>> >>, <<"fill_arr", [i \in 1..s.n |-> 1 + (i % 2)]>> }
Configs == { <<k, n>> : k \in {0, 1}, n \in {1, 2, 4} }
BigConfigs == Configs \cup { <<0, 8>> }

Inv(s) == s.cnt \in 0..s.n /\ s.h \in 0..(s.n - 1)
(* the queue view *)
Safe(s, op, a, r, t) ==
  /\ op = "put" => Queue(t) = Append(IF s.cnt = s.n THEN Tail(Queue(s)) ELSE Queue(s), a[1])
  /\ (op = "get" /\ s.cnt > 0) => Queue(s) = <<r[IF s.kind = 0 THEN 1 ELSE 2]>> \o Queue(t)
  /\ op = "reset" => Queue(t) = <<>>
  /\ (op = "remove_first" /\ s.cnt > 0) => Queue(t) = Tail(Queue(s))
===========================================================================
