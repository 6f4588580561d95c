------------------------------- MODULE Audio -------------------------------
(* util/audio_frame.hh: channels of fixed-point samples.  A float is           *)
(* mantissa * 2^exponent; samples are shown as high and low halves.            *)
EXTENDS Common

(* c = <<bits of the sample type (negative: unsigned), bits used, channels>> *)
Start(c) == [b |-> c[2], uns |-> B2I(c[1] < 0), ch |-> [i \in 1..c[3] |-> <<0, 0>>], w |-> AbsV(c[1])]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Top(b) == IF b = 32 THEN 2147483647 ELSE Pow2(b - 1) - 1
Bot(b) == -Top(b) - 1
Limbs(v) == << v \div 65536, v % 65536 >>
(* mantissa * 2^sh, rounded either way, within the range of b bits *)
Scaled(m, sh, b) ==
  IF m = 0 THEN {0}
  ELSE IF sh >= 0 THEN
    (IF sh >= b - 1 \/ (b - 1 - sh < 31 /\ AbsV(m) >= Pow2(b - 1 - sh)) THEN { IF m > 0 THEN Top(b) ELSE Bot(b) } ELSE { m * Pow2(sh) })
  ELSE IF sh < -30 THEN { 0, IF m < 0 THEN -1 ELSE 1 }
  ELSE LET d == Pow2(-sh) IN { Clamp(v, Bot(b), Top(b)) : v \in { m \div d, -((-m) \div d) } }
(* unsigned: -1..1 becomes 0..2^b-1; judged for up to 16 bits, and at the ends *)
MaxU(b) == Pow2(b) - 1
AtLeast1(m, e) == IF e >= 0 THEN m >= 1 ELSE IF e < -30 THEN FALSE ELSE m >= Pow2(-e)
Unsigned(m, e, b) ==
  IF AtLeast1(m, e) THEN { IF b = 32 THEN << 65535, 65535 >> ELSE Limbs(MaxU(b)) }
  ELSE IF AtLeast1(-m, e) THEN { <<0, 0>> }
  \* e in -10..-1: (m + 2^-e) / 2^(1-e) of the whole
  ELSE LET num == (m + Pow2(-e)) * MaxU(b)  den == Pow2(1 - e) IN { Limbs(v) : v \in Max2(0, (num \div den) - 1)..Min2(MaxU(b), (num \div den) + 1) }
(* the b low bits of a raw sample, as a signed number *)
Signed(v, b) == IF b = 32 THEN v ELSE LET x == v % Pow2(b) IN IF x >= Pow2(b - 1) THEN x - Pow2(b) ELSE x
Val(s, i) == s.ch[i + 1][1] * 65536 + s.ch[i + 1][2]
All(s) == FlattenSeq(s.ch)
Put(s, i, v) == [s EXCEPT !.ch[i + 1] = v]
Outs(s, i, vs) == { [s |-> t, r |-> All(t)] : t \in { Put(s, i, v) : v \in vs } }
(* raw patterns fill the sample type *)
Raw(s, hi, lo) == IF s.w = 32 THEN hi * 65536 + lo ELSE IF s.w = 16 THEN (IF lo >= 32768 THEN lo - 65536 ELSE lo) ELSE (IF (lo % 256) >= 128 THEN (lo % 256) - 256 ELSE lo % 256)
Step(s, op, a) ==
  CASE op = "out" -> IF s.uns = 1 THEN Outs(s, a[1], Unsigned(a[2], a[3], s.b)) ELSE Outs(s, a[1], { Limbs(v) : v \in Scaled(a[2], a[3] + s.b - 1, s.b) })
    [] op = "raw" -> Ok(Put(s, a[1], Limbs(Raw(s, a[2], a[3]))), <<>>)
    [] op = "in" -> LET v == Signed(Val(s, a[1]), s.b) IN Ok(s, Limbs(v) \o Limbs(v))
    [] op = "loop" -> LET v == Signed(Val(s, a[1]), s.b) IN Outs(s, a[2], {Limbs(v)})
Menu(s) ==
  IF s.uns = 1 THEN { <<"out", <<i, m, -2>>>> : i \in {0, 1}, m \in {-1000, -5, -4, 4, 5, 1000} }
  ELSE { <<"out", <<Len(s.ch) - 1, m, e>>>> : m \in {-3, -1, 0, 1, 3}, e \in {-2, 0, 8, 20} }
       \cup { <<"raw", <<0, h, l>>>> : h \in {0, -1, 127}, l \in {0, 32768, 3840} }
       \cup { <<"in", <<i>>>> : i \in 0..(Len(s.ch) - 1) }
       \cup { <<"loop", <<0, Len(s.ch) - 1>>>> }
Configs == { <<32, 24, 2>>, <<16, 16, 2>>, <<32, 16, 2>>, <<16, 12, 1>>, <<8, 8, 3>>, <<-16, 16, 2>>, <<-32, 32, 2>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) == op = "loop" => Val(t, a[2]) = Signed(Val(s, a[1]), s.b)
=============================================================================
