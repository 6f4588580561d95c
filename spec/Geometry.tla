------------------------------ MODULE Geometry ------------------------------
(* util/geometry.hh: rectangles <<left, top, right, bottom>> whose edges belong *)
(* to them, rectangles <<left, top, width, height>>, and polygons.              *)
EXTENDS Common

Start(c) == [n |-> c[1]]
Meet(l1, r1, l2, r2) == \E v \in {l1, l2} : v >= l1 /\ v <= r1 /\ v >= l2 /\ v <= r2   \* the larger left edge is a common point, if there is any
(* whole centres, rounded either way *)
Halves(v) == { v \div 2, (v + 1) \div 2 }

Pt(a, i) == LET n == (Len(a) - 1) \div 2  k == (i % n) IN << a[2 + 2 * k], a[3 + 2 * k] >>
Turn(o, p, q) == (p[1] - o[1]) * (q[2] - o[2]) - (p[2] - o[2]) * (q[1] - o[1])
Turns(a) == LET n == (Len(a) - 1) \div 2 IN { Turn(Pt(a, i), Pt(a, i + 1), Pt(a, i + 2)) : i \in 0..(n - 1) }
Concave(a) == IF Len(a) < 7 THEN FALSE ELSE (\E v \in Turns(a) : v > 0) /\ (\E v \in Turns(a) : v < 0)

Step(s, op, a) ==
  CASE op = "rects" ->
         LET h == B2I(Meet(a[1], a[3], a[5], a[7]))  v == B2I(Meet(a[2], a[4], a[6], a[8])) IN Ok(s, <<h, v, h * v, h, v, h * v>>)
    [] op = "rectc" -> { [s |-> s, r |-> <<a[3] - a[1], a[4] - a[2], x, y>>] : x \in Halves(a[1] + a[3]), y \in Halves(a[2] + a[4]) }
    [] op = "rect" -> { [s |-> s, r |-> <<a[1] + a[3], a[2] + a[4], x, y>>] : x \in Halves(2 * a[1] + a[3]), y \in Halves(2 * a[2] + a[4]) }
    [] op = "poly" -> Ok(s, <<B2I(Concave(a))>>)

Extents(lo, hi) == { <<l, r>> \in (lo..hi) \X (lo..hi) : l <= r }
Grid == (0..2) \X (0..2)
Menu(s) ==
  CASE s.n = 0 -> { <<"rects", <<x[1], 0, x[2], 1, y[1], z, y[2], z + 1>>>> : x, y \in Extents(-2, 2), z \in {0, 1, 2} }
                  \cup { <<"rects", <<0, x[1], 1, x[2], z, y[1], z + 1, y[2]>>>> : x, y \in Extents(-2, 2), z \in {-1, -2, 1} }
    [] s.n = 1 -> { <<"rectc", <<x[1], y[1], x[2], y[2]>>>> : x, y \in Extents(-3, 2) }
                  \cup { <<"rect", <<x, y, w, h>>>> : x, y \in -2..2, w, h \in 0..3 }
    [] s.n = 2 -> { <<"poly", <<0>> \o p \o q \o x>> : p, q, x \in Grid } \cup { <<"poly", <<5>>>>, <<"poly", <<0, 1, 1>>>>, <<"poly", <<3, 1, 1, 2, 2>>>> }
    [] s.n = 3 -> { <<"poly", <<1>> \o p \o q \o x \o y>> : p, q, x, y \in Grid }
    [] s.n = 4 -> { <<"poly", <<4, 0, 0>> \o p \o q \o x \o y>> : p, q, x, y \in Grid }
    [] s.n = 5 -> { <<"poly", <<3, 1, 0>> \o p \o q \o x \o y>> : p, q, x, y \in Grid }
Configs == { <<0>>, <<1>>, <<2>>, <<3>>, <<4>> }
BigConfigs == { <<k>> : k \in 0..5 }
Inv(s) == TRUE
(* orientation and first vertex do not matter *)
Rotated(a) == <<a[1]>> \o DropN(a, 3) \o << a[2], a[3] >>
Reversed(a) == <<a[1]>> \o FlattenSeq([i \in 1..((Len(a) - 1) \div 2) |-> Pt(a, ((Len(a) - 1) \div 2) - i)])
Share(l1, r1, l2, r2) == (l1..r1) \cap (l2..r2) # {}
Near(a) == \A i \in DOMAIN a : AbsV(a[i]) < 10
Safe(s, op, a, r, t) ==
  CASE op = "poly" -> IF Len(a) >= 7 THEN r[1] = B2I(Concave(Rotated(a))) /\ r[1] = B2I(Concave(Reversed(a))) ELSE TRUE
    [] op = "rects" -> IF Near(a) THEN r[1] = B2I(Share(a[1], a[3], a[5], a[7])) /\ r[2] = B2I(Share(a[2], a[4], a[6], a[8])) ELSE TRUE
    [] OTHER -> TRUE
=============================================================================
