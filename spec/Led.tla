-------------------------------- MODULE Led --------------------------------
(* util/rgbled.hh: a background colour, a flash (or fade) over it and, while   *)
(* there is none, breathing.  Colours are <<red, green, blue>>.                *)
(* Shown colours are judged: the flash may begin and end an update early or    *)
(* late, and mixed colours may be off by a few steps of 256.                   *)
EXTENDS Common

Tol == 3
(* c = <<updates per second>> *)
(* flash: k updates so far, of n / 1000; phase of the breathing in 1/(4 * rate) *)
Start(c) == [rate |-> c[1], bg |-> <<0, 0, 0>>, on |-> 0, fl |-> <<255, 255, 255>>, fade |-> 0, k |-> 0, n |-> 0,
             bc |-> <<255, 0, 0>>, f |-> 0, p |-> 0, cal |-> <<128, 128, 128>>]
Col(a) == <<a[1], a[2], a[3]>>
(* num / den of the way from x to y *)
Mix(x, y, num, den) == (x * (den - num) + y * num) \div den
Adj(v, adj) == Min2((v * adj) \div 128, 255)
(* the observed channel is the ideal v, up to t, adjusted *)
Is(o, v, t, adj) == o \in Adj(Max2(v - t, 0), adj)..Adj(Min2(v + t, 255), adj)
(* ... and between the two mixed colours *)
Within(o, x, y, adj) == o >= Adj(Min2(x, y), adj) - 1 /\ o <= Adj(Max2(x, y), adj)
AllIs(o, s, y, num, den, t) == \A i \in 1..3 : Is(o[i], Mix(s.bg[i], y[i], num, den), t, s.cal[i]) /\ Within(o[i], s.bg[i], y[i], s.cal[i])

Flashed(s, o) ==
  IF s.fade = 0 THEN \A i \in 1..3 : o[i] = Adj(s.fl[i], s.cal[i])
  ELSE IF s.n = 0 THEN FALSE
  ELSE AllIs(o, s, s.fl, Max2(s.n - 1000 * s.k, 0), s.n, Tol)
Tri(s) == IF s.p <= 2 * s.rate THEN s.p ELSE 4 * s.rate - s.p        \* of 2 * rate
Breathing(s, o) ==
  IF s.f = 0 /\ s.p = 0 THEN \A i \in 1..3 : o[i] = Adj(s.bg[i], s.cal[i])
  ELSE AllIs(o, s, s.bc, Tri(s), 2 * s.rate, Tol)
MayEnd(s) == 1000 * s.k > s.n - 1000
MayLast(s) == 1000 * s.k <= s.n + 1000
Tick(s) == [s EXCEPT !.k = IF s.on = 1 THEN @ + 1 ELSE @, !.p = (@ + s.f) % (4 * s.rate)]
Ticked(s) == LET t == Tick(s) IN
   (IF t.on = 1 /\ MayLast(t) THEN {t} ELSE {}) \cup (IF t.on = 0 \/ MayEnd(t) THEN {[t EXCEPT !.on = 0, !.k = 0]} ELSE {})
RECURSIVE Skip(_, _)
Skip(ss, n) == IF n = 0 THEN ss ELSE Skip(UNION { Ticked(s) : s \in ss }, n - 1)

Half(x, y) == { (x \div 2) + (y \div 2), (x + y) \div 2 }
Step(s, op, a) ==
  CASE op = "base" -> Ok([s EXCEPT !.bg = Col(a)], <<>>)
    [] op = "add" -> Ok([s EXCEPT !.bg = [i \in 1..3 |-> Min2(s.bg[i] + a[i], 255)]], <<>>)
    [] op = "blend" -> { [s |-> [s EXCEPT !.bg = <<x, y, z>>], r |-> <<>>] : x \in Half(s.bg[1], a[1]), y \in Half(s.bg[2], a[2]), z \in Half(s.bg[3], a[3]) }
    [] op \in {"flash", "fade"} -> Ok([s EXCEPT !.on = 1, !.fl = Col(a), !.fade = B2I(op = "fade"), !.k = 0, !.n = a[4] * s.rate], <<>>)
    [] op = "breathe" -> Ok([s EXCEPT !.bc = Col(a), !.f = a[4]], <<>>)
    [] op = "still" -> Ok([s EXCEPT !.f = 0, !.p = 0], <<>>)
    [] op = "cal" -> Ok([s EXCEPT !.cal = Col(a)], <<>>)
    [] op = "skip" -> { [s |-> t, r |-> <<>>] : t \in Skip({s}, a[1]) }
    [] op = "update" -> { [s |-> t, r |-> Col(a)] : t \in { x \in Ticked(s) : IF x.on = 1 THEN Flashed(x, a) ELSE Breathing(x, a) } }
    [] op = "set" -> Ok(s, Col(a))
    [] op = "set8" -> IF \A i \in 1..3 : AbsV(a[4 + i] * 256 - a[i] * a[4]) <= 512 /\ a[4 + i] <= a[i] THEN Ok(s, <<a[5], a[6], a[7]>>) ELSE {}
    [] op = "setf" -> IF \A i \in 1..3 : AbsV(a[4 + i] * 64 - a[i] * a[4]) <= 64 /\ a[4 + i] <= a[i] THEN Ok(s, <<a[5], a[6], a[7]>>) ELSE {}
Menu(s) == {}
Configs == { <<1000>> }
BigConfigs == Configs
Inv(s) == s.k * 1000 <= s.n + 1000 /\ s.p < 4 * s.rate
Safe(s, op, a, r, t) == op = "update" => \A i \in 1..3 : r[i] \in 0..255
=============================================================================
