------------------------------- MODULE Poll -------------------------------
(* util/poll_event.hh (kind 0, tick counters of several types) and              *)
(* util/poll_change.hh (kind 1).  The tick counter counts modulo M; for wide     *)
(* types the driver adds a base just below the point where the counter wraps,    *)
(* and the specification counts ticks from there: M = 0 stands for "more than    *)
(* will ever be counted", since = -1 for "never fired" (the counter was at 0,    *)
(* which the wide types passed d ticks ago and will pass again d ticks later)    *)
EXTENDS Common

(* c = <<kind, type, M, d, period>>: first tick value is M - d (or base - d)    *)
Start(c) == [kind |-> c[1], typ |-> c[2], m |-> c[3], d |-> c[4], per |-> c[5],
             now |-> IF c[3] = 0 THEN 0 ELSE (c[3] - c[4]) % c[3], since |-> IF c[3] = 0 THEN -1 ELSE 0,
             cur |-> 0, chg |-> 0, force |-> 0]
Huge == 1000000000
(* ticks since the period was last restarted; a wide counter that never fired    *)
(* restarts at its zero crossing                                                 *)
Elapsed(s, now) ==
  IF s.m # 0 THEN (now - s.since) % s.m
  ELSE IF s.since = -1 /\ s.typ >= 6 THEN now - s.d      \* floating point time does not wrap
  ELSE IF s.since = -1 THEN (IF now < s.d THEN Huge ELSE now - s.d) ELSE now - s.since
Adv(s, k) == IF s.m = 0 THEN s.now + k ELSE (s.now + k) % s.m

Step(s, op, a) ==
  CASE op = "poll" ->
         LET now == Adv(s, a[1]) hit == Elapsed(s, now) >= s.per t == [s EXCEPT !.now = now] IN
         Ok(IF hit THEN [t EXCEPT !.since = now] ELSE t, <<B2I(hit)>>)
    \* PollChange::poll(now, state), poll(now, state_func): r tells whether state_func was called
    [] op \in {"sample", "sample_fn"} ->
         LET now == Adv(s, a[1]) hit == s.force = 1 \/ Elapsed(s, now) >= s.per t == [s EXCEPT !.now = now] IN
         Ok(IF hit THEN [t EXCEPT !.since = now, !.force = 0, !.cur = a[2], !.chg = IF s.cur # a[2] THEN 1 ELSE @] ELSE t,
            IF op = "sample_fn" THEN <<B2I(hit)>> ELSE <<>>)
    [] op = "take" -> Ok([s EXCEPT !.chg = 0], <<s.chg>>)
    [] op = "force" -> Ok([s EXCEPT !.force = 1], <<>>)
    [] op = "reset" -> Ok([s EXCEPT !.chg = 1], <<>>)

Lim(s) == IF s.m = 0 THEN { k \in {0, 1, s.per - 1, s.per, s.per + 1, 3} : k >= 0 /\ s.now + k < 12 }
          ELSE {0, 32, 64, 96, 160, 224}      \* a coarse grid: the walk stays small
Menu(s) == IF s.kind = 0 THEN { <<"poll", <<k>> >> : k \in Lim(s) }
           ELSE { <<o, <<k, v>> >> : o \in {"sample", "sample_fn"}, k \in Lim(s), v \in 0..1 }
                \cup { <<o, <<>> >> : o \in {"take", "force", "reset"} }
(* types: 0 uint8, 1 uint16, 2 uint32, 3 uint64, 4 long int (the default), 5 int32, *)
(* 6 float, 7 double (starting at -d)                                            *)
Configs == { <<0, 0, 256, 3, 64>>, <<0, 0, 256, 100, 130>>, <<0, 0, 256, 32, 224>> }
           \cup { <<0, t, 0, d, p>> : t \in {1, 2, 3}, d \in {3, 7}, p \in {2, 5} }
           \cup { <<0, t, 0, d, p>> : t \in {4, 5}, d \in {7}, p \in {2, 3} }
           \cup { <<0, t, 0, 3, p>> : t \in {6, 7}, p \in {2, 5} }
           \cup { <<1, 2, 0, d, p>> : d \in {3, 7}, p \in {0, 2, 5} }
BigConfigs == Configs \cup { <<0, 0, 256, d, p>> : d \in {0, 1, 200}, p \in {1, 33, 255, 64} }
              \cup { <<1, 2, 0, d, p>> : d \in {0, 1, 5}, p \in {1, 3} }

Inv(s) == s.chg \in 0..1
Safe(s, op, a, r, t) ==
  /\ op = "poll" /\ r = <<1>> => t.since = t.now /\ Elapsed(s, t.now) >= s.per
  /\ op = "poll" /\ r = <<0>> => t.since = s.since /\ Elapsed(s, t.now) < s.per
  /\ t.cur # s.cur => t.chg = 1 /\ t.since = t.now
===========================================================================
