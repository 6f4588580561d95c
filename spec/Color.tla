------------------------------- MODULE Color -------------------------------
(* util/colors.hh, util/colors_rgb565.hh, util/hsv.hh.  Each channel is on its *)
(* own; sums saturate; mixes lie between the mixed values, within a step or two*)
(* of the exact mix; the 16-bit format keeps the leading bits.                 *)
EXTENDS Common

Start(c) == [n |-> c[1]]
Col(a, i) == << a[i], a[i + 1], a[i + 2] >>
Each(s, F(_)) == { [s |-> s, r |-> <<x, y, z>>] : x \in F(1), y \in F(2), z \in F(3) }
Exact(s, F(_)) == Ok(s, << F(1), F(2), F(3) >>)
(* mixes of x and y, num / den of the way, up to t steps off, exactly x or y at the ends *)
Mixes(x, y, num, den, t) ==
  LET v == (x * (den - num) + y * num) IN
  { m \in Max2(Min2(x, y), (v \div den) - t)..Min2(Max2(x, y), (v \div den) + t + 1) :
       /\ AbsV(m * den - v) <= t * den
       /\ (num = 0 => m = x) /\ (num = den => m = y) }
(* the fields of a 16-bit colour *)
F565(v) == << v \div 2048, (v \div 32) % 64, v % 32 >>
V565(f) == f[1] * 2048 + f[2] * 32 + f[3]
Mix565(s, x, y, num, den) == { [s |-> s, r |-> <<V565(<<p, q, z>>)>>] :
    p \in Mixes(F565(x)[1], F565(y)[1], num, den, 2), q \in Mixes(F565(x)[2], F565(y)[2], num, den, 3), z \in Mixes(F565(x)[3], F565(y)[3], num, den, 2) }
(* the slow mix goes through eight bits and back *)
Shown565(f) == << V565(f), V565(f), f[1] * 8, f[2] * 4, f[3] * 8 >>
Near(v, num, den, t) == { m \in Max2(0, (num \div den) - t)..Min2(v, (num \div den) + t + 1) : AbsV(m * den - num) <= t * den }
Hsv(s, h, sat, v) ==
  LET k == h \div 43
      f == (h - 43 * k) * 6
      p == Near(v, v * (255 - sat), 255, 3)
      q == Near(v, v * (65025 - sat * f), 65025, 4)
      t == Near(v, v * (65025 - sat * (255 - f)), 65025, 4)
      V == {v}
      C(x, y, z) == { [s |-> s, r |-> <<i, j, l>>] : i \in x, j \in y, l \in z }
  IN IF sat = 0 THEN Ok(s, <<v, v, v>>)
     ELSE CASE k = 0 -> C(V, t, p) [] k = 1 -> C(q, V, p) [] k = 2 -> C(p, V, t)
            [] k = 3 -> C(p, q, V) [] k = 4 -> C(t, p, V) [] OTHER -> C(V, p, q)

(* the named colours every user knows the channels of: off, black, white, red, green, blue, yellow, cyan *)
Primary == << <<0, 0, 0>>, <<0, 0, 0>>, <<255, 255, 255>>, <<255, 0, 0>>, <<0, 255, 0>>, <<0, 0, 255>>, <<255, 255, 0>>, <<0, 255, 255>> >>

Step(s, op, a) ==
  CASE op \in {"add", "combine"} -> Exact(s, LAMBDA i : Min2(a[i] + a[3 + i], 255))
    [] op = "half" -> Each(s, LAMBDA i : { (a[i] \div 2) + (a[3 + i] \div 2), (a[i] + a[3 + i]) \div 2 })
    [] op = "blend8" -> Each(s, LAMBDA i : Mixes(a[i], a[3 + i], a[7], 255, 1))
    [] op = "blend32" -> Each(s, LAMBDA i : Mixes(a[i], a[3 + i], a[7], 65536, 2))
    [] op = "blendf" -> Each(s, LAMBDA i : Mixes(a[i], a[3 + i], a[7], 64, 1))
    [] op = "times" -> Each(s, LAMBDA i : Mixes(0, a[i], a[4], 64, 1))
    [] op = "adjust" -> Each(s, LAMBDA i : { Min2((a[i] * a[3 + i]) \div 128, 255), Min2((a[i] * a[3 + i] + 64) \div 128, 255) })
    [] op = "eq" -> Ok(s, << B2I(Col(a, 1) = Col(a, 4)), B2I(Col(a, 1) # Col(a, 4)) >>)
    [] op = "from565" -> LET f == F565(a[1]) IN Ok(s, << f[1] * 8, f[2] * 4, f[3] * 8 >>)
    [] op = "to565" -> Ok(s, << V565(<< a[1] \div 8, a[2] \div 4, a[3] \div 8 >>) >>)
    [] op \in {"slow565", "blend565f"} -> Mix565(s, a[1], a[2], a[3], 64)
    [] op = "blend565" -> Mix565(s, a[1], a[2], a[3], 255)
    [] op \in {"s565", "u565"} -> Ok(s, Shown565(<< a[1] \div 8, a[2] \div 4, a[3] \div 8 >>))
    [] op = "f565" -> Ok(s, Shown565(<< Clamp(a[1] \div 2, 0, 31), Clamp(a[2], 0, 63), Clamp(a[3] \div 2, 0, 31) >>))
    [] op = "raw565" -> Ok(s, Shown565(F565(a[1])))
    [] op = "hsv" -> Hsv(s, a[1], a[2], a[3])
    [] op = "named" -> Ok(s, Primary[a[1] + 1])

Lv == {0, 1, 7, 127, 128, 255}
C3(x, y) == << x, y, 255 - x >>
Menu(s) ==
  CASE s.n = 0 -> { <<op, C3(x, y) \o C3(z, w)>> : op \in {"add", "combine", "half", "eq", "adjust"}, x, y, z, w \in Lv }
    [] s.n = 1 -> { <<op, C3(x, y) \o C3(y, z) \o <<p>>>> : op \in {"blend8"}, x, y, z \in Lv, p \in {0, 1, 127, 128, 254, 255} }
                  \cup { <<"blend32", C3(x, y) \o C3(y, z) \o <<p, p>>>> : x, y, z \in Lv, p \in {0, 1, 255, 32768, 65535} }
                  \cup { <<"blendf", C3(x, y) \o C3(y, z) \o <<p>>>> : x, y, z \in Lv, p \in {0, 1, 32, 63, 64} }
                  \cup { <<"times", C3(x, y) \o <<p>>>> : x, y \in Lv, p \in {0, 1, 32, 63, 64} }
    [] s.n = 2 -> { <<op, <<v * 257>>>> : op \in {"from565", "raw565"}, v \in 0..255 }
                  \cup { <<op, <<x, y, z>>>> : op \in {"to565", "s565", "u565"}, x, y, z \in {0, 3, 4, 7, 8, 127, 252, 255} }
                  \cup { <<"f565", <<x, y, z>>>> : x, y, z \in {-640, -64, -1, 0, 1, 33, 63, 64, 6400} }
    [] s.n = 3 -> { <<op, <<x * 4369, y * 4369, p>>>> : op \in {"slow565", "blend565f"}, x, y \in 0..15, p \in {0, 1, 16, 32, 63, 64} }
                  \cup { <<"blend565", <<x * 4369, y * 4369, p>>>> : x, y \in 0..15, p \in {0, 3, 4, 100, 128, 251, 252, 255} }
    [] s.n = 4 -> { <<"named", <<i>>>> : i \in 0..7 } \cup { <<"hsv", <<h, sat, v>>>> : h \in 0..255, sat \in {0, 1, 128, 255}, v \in {0, 1, 100, 255} }
Configs == { <<k>> : k \in 0..4 }
BigConfigs == Configs
Inv(s) == TRUE
(* declared independently: sums are commutative and never smaller than a part; mixes stay between; the brightest channel of a hue is its value *)
Safe(s, op, a, r, t) ==
  CASE op \in {"add", "combine"} -> \A i \in 1..3 : r[i] >= a[i] /\ r[i] >= a[3 + i] /\ r[i] <= 255
    [] op \in {"half", "blend8", "blend32", "blendf"} -> \A i \in 1..3 : r[i] <= Max2(a[i], a[3 + i])
    [] op = "hsv" -> Max({r[1], r[2], r[3]}) = a[3]
    [] OTHER -> TRUE
=============================================================================
