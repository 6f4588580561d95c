------------------------------- MODULE Fifo -------------------------------
(* util/lockfree_fifo_spsc.hh and _dyn.hh as a sequential object (one call   *)
(* at a time; concurrency is SpscLin.tla).  Elements live in n slots; w and r    *)
(* are the write and read positions, taken relative to position 0 of the     *)
(* 64-bit position counter (negative = just below the wrap-around), so that   *)
(* w - r is the fill count and position p occupies slot p mod n.             *)
(* Configuration <<kind, n, w0, r0, base, v1..vn>>                            *)
(*   kind 0: fixed size, 1: runtime size; w0: initial offset; r0: used with   *)
(*   set positions; base: which power of two all positions are relative to     *)
(*   (0: the position counter itself; only affects where wrapping happens);    *)
(*   values: initial contents of the storage (fixed size only) *)
EXTENDS Common

Start(c) == [n |-> c[2], dyn |-> c[1] = 1, w |-> c[3], r |-> c[4],
             mem |-> IF Len(c) > 5 THEN [i \in 1..c[2] |-> c[5 + i]] ELSE Rep(0, c[2]),
             based |-> c[5] > 0, stale |-> FALSE]      \* storage no longer fully known (after a resize)
Fill(s) == s.w - s.r
Slot(s, p) == (p % s.n) + 1
At(s, p) == s.mem[Slot(s, p)]
Obs(t) == <<Fill(t), t.n - Fill(t), B2I(Fill(t) = 0), B2I(Fill(t) = t.n), t.n>>
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

Step(s, op, a) ==
  CASE op = "put" -> IF Fill(s) = s.n THEN Res(s, <<0>>)
                     ELSE Res([s EXCEPT !.mem[Slot(s, s.w)] = a[1], !.w = @ + 1], <<1>>)
    \* batches: puts as long as there is room, gets as long as there are elements
    [] op = "puts" -> LET k == Min2(a[2], s.n - Fill(s)) IN
                      Res([s EXCEPT !.w = @ + k, !.mem = [i \in 1..s.n |-> LET d == (i - 1 - s.w) % s.n IN IF d < k THEN Batch(a[1], d) ELSE @[i]]], <<k>>)
    [] op = "gets" -> LET k == Min2(a[1], Fill(s)) IN Res([s EXCEPT !.r = @ + k], <<k>> \o [i \in 1..k |-> At(s, s.r + i - 1)])
    [] op \in {"get", "get_move"} ->
                     IF Fill(s) = 0 THEN Res(s, <<0, 0>>) ELSE Res([s EXCEPT !.r = @ + 1], <<1, At(s, s.r)>>)
    [] op = "get_or_default" ->
                     IF Fill(s) = 0 THEN Res(s, <<0>>) ELSE Res([s EXCEPT !.r = @ + 1], <<At(s, s.r)>>)
    [] op = "remove_first" -> Res([s EXCEPT !.r = IF Fill(s) = 0 THEN @ ELSE @ + 1], <<>>)
    [] op = "reset" -> Res([s EXCEPT !.r = s.w], <<>>)
    [] op = "set_read_pos" -> Res([s EXCEPT !.r = a[1]], <<>>)
    [] op = "set_write_pos" -> Res([s EXCEPT !.w = a[1]], <<>>)
    \* set_read_offset(k): re-read the last k elements, if that many positions exist
    [] op = "set_read_offset" -> Res([s EXCEPT !.r = IF s.based \/ s.w < 0 \/ a[1] <= s.w THEN s.w - a[1] ELSE @], <<>>)
    \* resize(m): empties the FIFO unless the size does not change
    [] op = "resize" -> IF a[1] = s.n THEN Res(s, <<>>)
                        ELSE Res([s EXCEPT !.n = a[1], !.r = s.w, !.mem = Rep(0, a[1]), !.stale = TRUE], <<>>)

(* positions are bounded here only to keep the explored space finite *)
Menu(s) ==
  (IF s.w < 3 THEN { <<"put", <<v>> >> : v \in 1..2 } ELSE IF Fill(s) = s.n THEN { <<"put", <<1>> >> } ELSE {})
  \cup { <<"gets", <<k>> >> : k \in {0, 2} } \cup (IF s.w < 2 THEN { <<"puts", <<1, k>> >> : k \in {0, 2} } ELSE {})
  \cup { <<o, <<>> >> : o \in {"get", "get_move", "get_or_default", "remove_first", "reset"} }
  \cup (IF s.stale THEN {} ELSE { <<"set_read_offset", <<k>> >> : k \in 0..s.n })
  \* (a size that is no power of two does not survive the wrap of the 64-bit counter: not a use case)
  \cup (IF s.dyn /\ ~s.stale THEN { <<"resize", <<m>> >> : m \in IF s.w < 0 /\ ~s.based THEN {1, 2, 4} ELSE {1, 2, 3} } ELSE {})
Configs == { <<0, 1, 0, 0, 0>>, <<0, 2, 0, 0, 0>>, <<0, 2, 1, 0, 0>>, <<0, 2, -1, -1, 0>>, <<0, 4, 2, 0, 0, 1, 2, 1, 2>>,
             <<1, 2, 0, 0, 0>>, <<1, 3, 0, 0, 0>>, <<1, 3, 2, 0, 0>>, <<1, 2, -2, -2, 0>>, <<1, 3, -2, -2, 3>>, <<1, 3, -1, -2, 4>> }
BigConfigs == Configs \cup { <<0, 4, -2, -3, 0>>, <<0, 4, 0, 0, 0>>, <<1, 4, -3, -3, 0>>, <<1, 5, 0, 0, 0>>, <<0, 8, 1, 0, 0>> }
             \cup { <<1, 3, -2, -3, b>> : b \in 1..5 } \cup { <<0, 2, -1, -1, b>> : b \in 1..5 }

Inv(s) == Fill(s) \in 0..s.n
Contents(s) == [i \in 1..Fill(s) |-> At(s, s.r + i - 1)]
(* FIFO order, exactly once: seen as a queue of contents *)
Safe(s, op, a, r, t) ==
  /\ (op = "put" /\ r[1] = 1) => Contents(t) = Append(Contents(s), a[1])
  /\ (op = "put" /\ r[1] = 0) => t = s /\ Fill(s) = s.n
  /\ (op \in {"get", "get_move"} /\ r[1] = 1) => Contents(s) = <<r[2]>> \o Contents(t)
  /\ (op \in {"get", "get_move"} /\ r[1] = 0) => Contents(s) = <<>>
  /\ (op \in {"reset"}) => Contents(t) = <<>>
===========================================================================
