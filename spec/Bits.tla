-------------------------------- MODULE Bits --------------------------------
(* util/math.hh (integers and bits), util/cortex_math.hh, util/bitfield.hh,    *)
(* util/smallest_integer.hh, util/overloaded.hh.                               *)
(* Wide numbers are four 16 bit digits, least significant first, and here the  *)
(* sets of their ones.                                                         *)
EXTENDS Common

P2(n) == 2 ^ n
Ones(a, i) == { 16 * (k - i) + b : k \in i..i + 3, b \in 0..15 } \cap { x \in 0..63 : ((a[i + x \div 16]) \div P2(x % 16)) % 2 = 1 }
Digits(S) == [k \in 1..4 |-> LET R == { x \in S : x \div 16 = k - 1 } IN IF R = {} THEN 0 ELSE SumSet({ P2(x % 16) : x \in R })]
Width(S, w) == S \cap 0..w - 1
NextP2(S, w) == IF S = {} THEN {0} ELSE IF Cardinality(S) = 1 THEN S ELSE Width({ Max(S) + 1 }, w)
Top(S) == IF S = {} THEN 0 ELSE Max(S)
(* 32 bit arithmetic on four bytes, least significant first *)
Bytes(S) == [k \in 1..4 |-> LET R == { x \in S : x \div 8 = k - 1 } IN IF R = {} THEN 0 ELSE SumSet({ P2(x % 8) : x \in R })]
MulB(x, y) ==
  LET c1 == x[1] * y[1]
      c2 == x[1] * y[2] + x[2] * y[1] + c1 \div 256
      c3 == x[1] * y[3] + x[2] * y[2] + x[3] * y[1] + c2 \div 256
      c4 == x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1] + c3 \div 256
  IN << c1 % 256, c2 % 256, c3 % 256, c4 % 256 >>
RECURSIVE PowB(_, _)
PowB(x, n) == IF n = 0 THEN <<1, 0, 0, 0>> ELSE MulB(x, PowB(x, n - 1))
FromB(b) == << b[1] + 256 * b[2], b[3] + 256 * b[4], 0, 0 >>
(* bits needed *)
Need(S) == IF S = {} THEN 0 ELSE Max(S) + 1
UBytes(n) == IF n <= 8 THEN 1 ELSE IF n <= 16 THEN 2 ELSE IF n <= 32 THEN 4 ELSE 8
Flat(v, w, c) == LET high == c + w \div 2  low == c - w \div 2 IN IF v > high THEN v - high ELSE IF v < low THEN v - low ELSE 0
PWidth == << 60, 60, 60, 7, 7, 0 >>
PCentre == << 0, 100, 100, -3, -3, 0 >>
Big == 2147483647
SatTo(v, n) == IF n = 0 \/ n >= 32 THEN v ELSE Clamp(v, -1 - (P2(n - 1) - 1), P2(n - 1) - 1)
UsatTo(v, n) == IF n >= 32 THEN v ELSE Clamp(v, 0, IF n = 31 THEN Big ELSE P2(n) - 1)
Fin(S) == ~((23..30) \subseteq S)
Infn(S) == (23..30) \subseteq S /\ S \cap 0..22 = {}
RECURSIVE Union4(_, _)
Union4(a, i) == IF i > Len(a) THEN {} ELSE Ones(a, i) \cup Union4(a, i + 4)
Adj(a) == [i \in 1..Len(a) - 1 |-> a[i + 1] - a[i]]

Start(c) == [x |-> 0]
OneOf(s, R) == { [s |-> s, r |-> <<x>>] : x \in R }
(* interpolation: exact where it can be had without 64 bits: small products, the ends, equal values *)
InterpAt(m, x, y, p) == IF p = 0 \/ x = y THEN x ELSE IF p = m THEN y ELSE CDiv(x * (m - p) + y * p, m)
Step(s, op, a) ==
  CASE op = "np2" -> Ok(s, Digits(NextP2(Width(Ones(a, 2), a[1]), a[1])))
    [] op = "log2" -> Ok(s, <<Top(Ones(a, 1))>>)
    [] op = "ispow" -> Ok(s, <<B2I(Cardinality(Ones(a, 1)) = 1)>>)
    [] op = "slog2" -> LET o == Tail(a) IN IF o[5] = Top(Ones(o, 1)) THEN Ok(s, o) ELSE {}
    [] op = "ipow" -> Ok(s, FromB(PowB(Bytes(Ones(a, 2)), a[1])))
    [] op = "range" -> Ok(s, <<IF a[1] = 32 THEN Big ELSE P2(a[1] - 1) - 1>>)
    [] op = "wrapm" -> Ok(s, <<a[3] % a[1]>>)
    [] op = "wrap" -> Ok(s, <<((a[2] - a[3]) % (a[4] - a[3] + 1)) + a[3]>>)
    [] op = "between" -> Ok(s, IF a[3] <= a[2] /\ a[2] <= a[4] THEN <<1, a[2] - a[3]>> ELSE <<0>>)
    [] op = "constrain" -> Ok(s, <<Clamp(a[2], a[3], a[4])>>)
    [] op = "minmax" -> Ok(s, <<Min2(a[2], a[3]), Max2(a[2], a[3])>>)
    [] op = "diff" -> Ok(s, Rep(AbsV(a[2] - a[3]), 3))
    [] op = "plateau" -> Ok(s, <<Flat(a[1], a[2], a[3])>>)
    [] op = "plateaus" -> Ok(s, <<Flat(a[2], PWidth[a[1] + 1], PCentre[a[1] + 1])>>)
    [] op = "swap16" -> Ok(s, << a[1] \div 256 + 256 * (a[1] % 256), 0, 0, 0 >>)
    [] op = "swap32" -> Ok(s, Digits({ 8 * (3 - x \div 8) + (x % 8) : x \in Ones(a, 1) \cap 0..31 }))
    [] op = "combine" -> Ok(s, << a[2] \div 256 + 256 * (a[2] % 256), a[1] \div 256 + 256 * (a[1] % 256), 0, 0 >>)
    [] op = "ssat" -> Ok(s, <<SatTo(a[1], a[2])>>)
    [] op = "usat" -> Ok(s, <<UsatTo(a[1], a[2])>>)
    [] op = "interp" -> IF a[1] > 100000 \/ a[2] # Clamp(a[2], -9999, 9999) \/ a[3] # Clamp(a[3], -9999, 9999)
                        THEN IF Min2(a[2], a[3]) <= a[5] /\ a[5] <= Max2(a[2], a[3]) /\ (a[4] \in {0, a[1]} => a[5] = InterpAt(a[1], a[2], a[3], a[4]))
                             THEN Ok(s, <<a[5]>>) ELSE {}
                        ELSE Ok(s, <<InterpAt(a[1], a[2], a[3], a[4])>>)
    [] op = "finterp" -> Ok(s, Rep(a[1] * (16 - a[3]) + a[2] * a[3], 2))
    [] op = "map" -> Ok(s, <<CDiv((a[1] - a[2]) * (a[5] - a[4]), a[3] - a[2]) + a[4]>>)
    [] op = "fmap" -> Ok(s, <<((a[1] - 16 * a[2]) * (a[5] - a[4]) * 16) \div (a[3] - a[2]) + 256 * a[4]>>)
    [] op = "random" -> IF a[2] <= a[4] /\ a[4] <= a[3] THEN Ok(s, <<a[4]>>) ELSE {}
    [] op = "finite" -> LET S == Ones(a, 1) IN Ok(s, <<B2I(Fin(S)), B2I(Infn(S))>>)
    [] op = "fields" -> LET w == IF a[1] = 17 THEN 16 ELSE IF a[1] = 0 THEN 32 ELSE a[1]
                            all == Digits(Width(Union4(a, 2), w))
                        IN Ok(s, all \o (IF a[1] = 0 THEN <<0, 0, 0, 0>> ELSE all) \o Digits(Width(Ones(a, 2), w)))
    [] op = "usize" -> LET o == Tail(a) IN IF o[5] = UBytes(Need(Ones(o, 1))) /\ o[6] = 1 THEN Ok(s, o) ELSE {}
    [] op = "ssize" -> LET o == Tail(a) IN   \* both ends without their signs (-1 - x)
                       IF o[9] = UBytes(1 + Max2(Need(Ones(o, 1)), Need(Ones(o, 5)))) /\ o[10] = 1 THEN Ok(s, o) ELSE {}
    [] op = "adiff" -> Ok(s, Adj(IF a[1] = 0 THEN <<1, 3, 3, -4, 100>> ELSE IF a[1] = 1 THEN <<7, 5>> ELSE <<0, 1, 4, 9>>))
    [] op = "visit" -> Ok(s, <<a[1], a[2]>>)
Menu(s) == {}
Configs == { <<>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) == TRUE
=============================================================================
