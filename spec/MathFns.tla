------------------------------ MODULE MathFns ------------------------------
(* util/math.hh, util/math_tables.cc: sine, tangent, powers of two, logarithm, *)
(* judged against series computed here in fixed point: results appended to the *)
(* arguments are accepted within the error of the tables.                       *)
EXTENDS Common

U == 16384
Mul(x, y) == (x * y) \div U
(* angles of 0..pi/4 in 1/16384 rad *)
SinSer(x) == LET q == Mul(x, x) IN x - Mul(x, q) \div 6 + Mul(x, Mul(q, q)) \div 120
CosSer(x) == LET q == Mul(x, x) IN U - q \div 2 + Mul(q, q) \div 24 - Mul(q, Mul(q, q)) \div 720
Rad(i) == (i * 251327) \div 10000       \* i of 4096 parts of a cycle, i <= 512
(* sine of i of 4096 parts of a cycle *)
SinOf(j) ==
  LET i == j % 4096  h == i % 2048
      q == IF h <= 1024 THEN h ELSE 2048 - h
      v == IF q <= 512 THEN SinSer(Rad(q)) ELSE CosSer(Rad(1024 - q))
  IN IF i < 2048 THEN v ELSE -v
CosOf(j) == SinOf(j + 1024)
Near(x, y, tol) == AbsV(x - y) <= tol
(* t in 1/1024: the tangent of i of 4096 parts of a cycle; slop in parts *)
TanIs(t, i, slop) ==
  LET c == CosOf(i)  s == SinOf(i) IN
  AbsV(c) < 500 \/ (AbsV(t) < 70000 /\ LET e == t * c - s * 1024
                                       IN AbsV(e) <= U + 8 * AbsV(t) + 8192 + slop * 26 * (AbsV(s) + 1024) * 1)

(* powers of two: 2^(f / 4096) in 1/16384, f < 4096; 2^(1/2), 2^(1/4), ... *)
Roots == << 23170, 19484, 17867, 17109, 16743, 16562, 16473, 16428, 16406, 16395, 16390, 16387 >>
RECURSIVE Exp2(_, _)
Exp2(f, k) == IF k > 12 THEN U ELSE LET b == 2 ^ (12 - k) IN IF f >= b THEN (Exp2(f - b, k + 1) * Roots[k] + U \div 2) \div U ELSE Exp2(f, k + 1)
(* <<e, m>> is 2^(x / 4096) to about tol / 16384 *)
PowIs(e, m, x, tol) ==
  LET f == x \div 4096  v == Exp2(x % 4096, 1)
  IN IF e = f THEN Near(m, v, tol) ELSE IF e = f + 1 THEN Near(2 * m, v, 2 * tol) ELSE IF e = f - 1 THEN Near(m, 2 * v, 2 * tol) ELSE FALSE
(* nth power of x / 16384 *)
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN U ELSE Mul(x, PowN(x, n - 1))

(* log2 of m / 16384 in 1/8192, 1 <= m / 16384 < 2, by squaring *)
RECURSIVE Bits(_, _)
Bits(m, k) == IF k = 13 THEN 0 ELSE LET q == (m * m) \div U IN IF q >= 2 * U THEN 2 ^ (12 - k) + Bits(q \div 2, k + 1) ELSE Bits(q, k + 1)
RECURSIVE Log2(_)
Log2(x) == IF x >= 2 * U THEN 8192 + Log2(x \div 2) ELSE IF x < U THEN Log2(2 * x) - 8192 ELSE Bits(x, 0)
(* ln of x / 1024 in 1/10000 *)
Ln(x) == ((Log2(x) + 4 * 8192) * 6931 + 4096) \div 8192

Start(c) == [x |-> 0]
Judge(s, a, n, ok) == IF ok THEN Ok(s, DropN(a, n)) ELSE {}
Entry(a) ==
  LET t == a[1]  i == a[2]  r == a[3] IN
  CASE t = 0 -> Near(r, SinOf(2 * i), 6)
    [] t = 1 -> TanIs(r, i, 0)
    [] t = 2 -> PowIs(r, a[4], (i * 20480) \div 2047, 24)
    [] t = 3 -> PowIs(r, a[4], (i * 40960) \div 2047, 24)
    [] t = 4 -> LET x == (i * U) \div 2047 IN PowN(x, 9) - 1 <= r /\ r <= PowN(x, 8) + 10   \* x^8.8, in fact
    [] t = 5 -> Near(r, Ln(20 * 1024 + i * 9995), 25)
SinIs(a) ==
  LET f == a[1]  n == a[2] * 64  r == a[3] IN
  CASE f \in {0, 1} -> Near(r, SinOf(n), 8)
    [] f = 2 -> Near(r, CosOf(n), 8)
    [] f = 3 -> Near(r, CosOf(n), 60)
    [] f = 4 -> Near(r, U, 16)
    [] f = 5 -> /\ Near(r, -SinOf(n), IF a[2] % 16 = 0 THEN 8 ELSE U \div 16)
                /\ (0 < a[2] /\ a[2] < 32) => r < 0
                /\ (32 < a[2] /\ a[2] < 64) => r > 0
FreqIs(x, r) ==
  LET f == Clamp(x, 20, 20000)  want == ((Ln(f * 1024) - 29957) * 1000) \div 6908
  IN Near(r, want, IF f < 100 THEN 70 ELSE 15)
Step(s, op, a) ==
  CASE op = "entry" -> Judge(s, a, 2, Entry(a))
    [] op = "sin" -> Judge(s, a, 2, SinIs(a))
    [] op = "tan" -> Judge(s, a, 2, TanIs(a[3], a[2] * 32, a[1]))
    [] op = "exp" -> Judge(s, a, 2, PowIs(a[3], a[4], IF a[1] = 0 THEN a[2] * 4 ELSE Clamp(a[2], -1024, 1024) * 20, 24))
    [] op = "far" -> Ok(s, <<1>>)
    [] op = "freq" -> Judge(s, a, 1, FreqIs(a[1], a[2]))
Menu(s) == {}
Configs == { <<>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) == TRUE
=============================================================================
