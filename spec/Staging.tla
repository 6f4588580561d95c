------------------------------ MODULE Staging ------------------------------
(* util/input_output_buffer.hh, util/byte_block.hh.  kind 0 input buffer, 1    *)
(* output buffer, of n items (pair: v stands for <<v, -v>>, started as         *)
(* <<7, 8>>); 2 byte block, a growing sequence of bytes.                       *)
EXTENDS Common

Start(c) == IF c[1] = 2 THEN [kind |-> 2, d |-> <<>>]
            ELSE LET z == IF c[3] = 1 THEN <<7, 8>> ELSE <<0>> IN
                 [kind |-> c[1], n |-> c[2], pair |-> c[3], d |-> Rep(z, c[2]), at |-> 0]
Item(s, v) == IF s.pair = 1 THEN <<v, -v>> ELSE <<v>>
Zero(s) == IF s.pair = 1 THEN <<7, 8>> ELSE <<0>>
Full(s) == s.at >= s.n
Tell(s) == <<B2I(Full(s)), s.n>>
See(s) == Tell(s) \o FlattenSeq(s.d) \o <<s.n, 1>>
BufStep(s, op, a) ==
  CASE op = "put" -> LET t == IF Full(s) THEN s ELSE [s EXCEPT !.d[s.at + 1] = Item(s, a[1]), !.at = @ + 1] IN Ok(t, Tell(t))
    \* batches
    [] op = "puts" -> LET k == Min2(a[2], s.n - s.at)
                          t == [s EXCEPT !.at = @ + k, !.d = [i \in 1..s.n |-> IF i > s.at /\ i <= s.at + k THEN Item(s, Batch(a[1], i - 1 - s.at)) ELSE @[i]]] IN Ok(t, Tell(t))
    [] op = "gets" -> LET k == Min2(a[1], s.n - s.at) t == [s EXCEPT !.at = @ + k] IN
                      Ok(t, FlattenSeq([i \in 1..a[1] |-> IF i <= k THEN s.d[s.at + i] ELSE Zero(s)]) \o Tell(t))
    [] op = "get" -> LET t == IF Full(s) THEN s ELSE [s EXCEPT !.at = @ + 1] IN Ok(t, (IF Full(s) THEN Zero(s) ELSE s.d[s.at + 1]) \o Tell(t))
    [] op = "reset" -> LET t == [s EXCEPT !.at = 0] IN Ok(t, Tell(t))
    [] op = "at" -> Ok(s, Tell(s) \o s.d[a[1] + 1])
    [] op = "poke" -> Ok([s EXCEPT !.d[a[1] + 1] = Item(s, a[2])], Tell(s))
    [] op = "fill" -> Ok([s EXCEPT !.d = Rep(Item(s, a[1]), s.n)], Tell(s))
    [] op = "see" -> Ok(s, See(s))
Low(w, k) == [i \in 1..k |-> IF i = 1 THEN w[1] % 256 ELSE IF i = 2 THEN w[1] \div 256 ELSE IF i = 3 THEN w[2] % 256 ELSE w[2] \div 256]
ByteStep(s, op, a) ==
  LET Add(x) == Ok([s EXCEPT !.d = @ \o x], <<Len(s.d) + Len(x)>>) IN
  CASE op \in {"p8", "u8"} -> Add(Low(a, 1))
    [] op \in {"p16", "u16"} -> Add(Low(a, 2))
    [] op \in {"p32", "u32"} -> Add(Low(a, 4))
    [] op = "raw" -> Add(a)
    \* a[1] bytes of a pattern
    [] op = "rawpat" -> Add([i \in 1..a[1] |-> (i - 1) % 251])
    [] op = "at" -> Ok(s, <<s.d[a[1] + 1], Len(s.d)>>)
    [] op = "see" -> Ok(s, s.d \o <<Len(s.d)>>)
Step(s, op, a) == IF s.kind = 2 THEN ByteStep(s, op, a) ELSE BufStep(s, op, a)
Menu(s) ==
  CASE s.kind = 0 -> { <<"put", <<v>>>> : v \in {1, 2} } \cup { <<"reset", <<>>>>, <<"see", <<>>>> } \cup { <<"poke", <<i, 3>>>> : i \in 0..s.n - 1 }
    [] s.kind = 1 -> { <<"get", <<>>>>, <<"reset", <<>>>>, <<"see", <<>>>>, <<"fill", <<5>>>> } \cup { <<"poke", <<i, v>>>> : i \in 0..s.n - 1, v \in {3, 4} }
    [] OTHER -> IF Len(s.d) > 6 THEN { <<"see", <<>>>> }
                ELSE { <<"see", <<>>>> } \cup { <<op, <<197>>>> : op \in {"p8", "u8"} } \cup { <<op, <<643>>>> : op \in {"p16", "u16"} }
                     \cup { <<op, <<643, 51204>>>> : op \in {"p32", "u32"} } \cup { <<"raw", x>> : x \in { <<>>, <<9>>, <<255, 0, 8>> } }
Configs == { <<0, n, p>> : n \in 1..3, p \in 0..1 } \cup { <<1, n, p>> : n \in 1..3, p \in 0..1 } \cup { <<2>> }
BigConfigs == Configs
Inv(s) == s.kind = 2 \/ (s.at <= s.n /\ Len(s.d) = s.n)
(* a full input buffer is not overwritten; a depleted output buffer gives fresh values *)
Safe(s, op, a, r, t) == /\ op = "put" => \A i \in 1..s.at : t.d[i] = s.d[i]
                        /\ (op = "get" /\ Full(s)) => TakeN(r, Len(Zero(s))) = Zero(s)
                        /\ op \in {"get", "reset", "see"} => t.d = s.d
=============================================================================
