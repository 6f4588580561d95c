------------------------------- MODULE Arena -------------------------------
(* util/monotonic_allocator.hh: blocks carved one after another from an arena *)
(* of c bytes.  A request larger than what is left is refused.               *)
(* A negative size stands for a huge one: -k for 2^32 + k if k is odd, else    *)
(* 2^64 - k.                                                                  *)
EXTENDS Common
Start(c) == [cap |-> c[1], off |-> 0]
Obs(t) == <<t.cap - t.off, t.cap>>
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }
Step(s, op, a) ==
  CASE op = "alloc" ->      \* result: refused?, offset of the block inside the arena
         IF a[1] < 0 \/ a[1] > s.cap - s.off THEN Res(s, <<0, 0>>)
         ELSE Res([s EXCEPT !.off = @ + a[1]], <<1, s.off>>)
    [] op = "reset" -> Res([s EXCEPT !.off = 0], <<>>)
Menu(s) == { <<"alloc", <<n>> >> : n \in -3..(s.cap + 2) } \cup { <<"reset", <<>> >> }
Configs == { <<0>>, <<1>>, <<2>>, <<5>>, <<9>> }
BigConfigs == Configs \cup { <<16>>, <<33>> }
Inv(s) == s.off \in 0..s.cap
Safe(s, op, a, r, t) ==
  op = "alloc" => IF r[1] = 1 THEN r[2] >= s.off /\ r[2] + a[1] <= t.off /\ t.off <= s.cap ELSE t = s
============================================================================
