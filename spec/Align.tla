------------------------------- MODULE Align -------------------------------
(* util/aligned_allocator.hh, util/padded_aligned.hh.  The allocator's choice  *)
(* of address is free, so the observed one (two parts of 24 bits and more) is  *)
(* judged: a multiple of the alignment, and clear of every live block.         *)
EXTENDS Common

(* c = <<size of an element, alignment>>; live: <<slot, high, low, bytes>> *)
Start(c) == [sz |-> c[1], al |-> c[2], live |-> {}]
Unit == 16777216
(* does the block at x of n bytes end at or before y? *)
Before(xh, xl, n, yh, yl) == LET d == yh - xh IN d > 64 \/ (d >= 0 /\ d * Unit + yl - xl >= n)
Clear(s, h, l, n) == \A b \in s.live : Before(b[2], b[3], b[4], h, l) \/ Before(h, l, n, b[2], b[3])
Step(s, op, a) ==
  CASE op = "alloc" ->
         LET h == a[6]  l == a[7]  n == a[2] * s.sz IN   \* a = <<slot, count, through, equal, unequal, high, low>>
         IF a[2] = 0 THEN Ok(s, <<1, 0, 0, 0>>)
         ELSE IF l % s.al = 0 /\ (h > 0 \/ l > 0) /\ Clear(s, h, l, n)
              THEN Ok([s EXCEPT !.live = @ \cup { <<a[1], h, l, n>> }], <<1, 0, h, l>>) ELSE {}
    [] op = "free" -> Ok([s EXCEPT !.live = { b \in @ : b[1] # a[1] }], <<1>>)
    [] op = "huge" -> Ok(s, <<1>>)
    [] op = "vector" -> Ok(s, <<1>>)
    [] op = "padded" ->
         LET o == Tail(a)  size == o[1]  al == o[2]  whole == ((size + al - 1) \div al) * al IN
         IF o[3] = whole /\ o[4] = al /\ o[5] = 0 /\ o[6] = 0 /\ o[7] = whole /\ o[8] = 0 /\ o[9] = 1 THEN Ok(s, o) ELSE {}
Menu(s) == {}
Configs == { <<1, 64>> }
BigConfigs == Configs
Inv(s) == \A b, c \in s.live : b = c \/ Before(b[2], b[3], b[4], c[2], c[3]) \/ Before(c[2], c[3], c[4], b[2], b[3])
Safe(s, op, a, r, t) == TRUE
=============================================================================
