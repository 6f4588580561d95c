-------------------------------- MODULE Osc --------------------------------
(* util/oscs.hh.  Phases are 15 bit numbers (a whole cycle is 32768): base is   *)
(* the phase when the frequency n / (4 * d) was set, k the updates since.       *)
(* Rounding of the frequency is allowed for: err grows with every update.       *)
EXTENDS Common

Full == 32768
(* c = <<kind, rate, frequency or -1>>; kinds 0 triangle, 1 ramp, 2 sine, 3 down counter, 4 one shot *)
Start(c) == IF c[1] = 4 THEN [kind |-> 4, rate |-> IF c[2] < 0 THEN 48000 ELSE c[2], q |-> 0, k |-> 0, on |-> 0]
            ELSE IF c[1] = 3 THEN [kind |-> 3, rate |-> c[2], top |-> Full - 1, n |-> 1, d |-> 0, k |-> 0, z |-> 0]
            ELSE [kind |-> c[1], rate |-> c[2], base |-> 0, n |-> IF c[3] < 0 THEN 0 ELSE c[3] * 4, d |-> 1, k |-> 0, err |-> 0, fl |-> 0]
Pow(b) == CASE b = 15 -> 16384 [] b = 14 -> 8192 [] b = 13 -> 4096 [] b = 12 -> 2048 [] b = 11 -> 1024 [] b = 10 -> 512 [] b = 9 -> 256
            [] b = 8 -> 128 [] b = 7 -> 64 [] b = 6 -> 32 [] b = 5 -> 16 [] b = 4 -> 8 [] b = 3 -> 4 [] b = 2 -> 2 [] b = 1 -> 1
(* (x / y) of a whole cycle, x < y *)
RECURSIVE Frac(_, _, _)
Frac(x, y, bits) == IF bits = 0 THEN 0 ELSE LET z == 2 * x IN IF z >= y THEN Pow(bits) + Frac(z - y, y, bits - 1) ELSE Frac(z, y, bits - 1)
(* updates run on: the part of a cycle gone is kept below one, as x of y *)
Whole(s) == 4 * s.d * s.rate
At(s) == (s.base + Frac(s.k, Whole(s), 15)) % Full
Run(s, m) == [s EXCEPT !.k = (@ + (s.n % Whole(s)) * m) % Whole(s), !.err = @ + m * ((s.n \div (4 * s.d) + 1) * (IF s.fl = 1 THEN 6 ELSE 1) + s.fl * 256)]
Slack(s) == 2 + s.err \div 100000
Around(p, e) == { (p + x) % Full : x \in -e..e }
Rebase(s) == [s EXCEPT !.base = At(s), !.k = 0]
Freq(s, n, d) == [Rebase(s) EXCEPT !.n = n, !.d = d, !.err = @ + 50000, !.fl = 0]
TriOf(p) == IF p < Full \div 2 THEN 2 * p ELSE 2 * (Full - p) - 1
TriVals(s) == { Clamp(TriOf(p) + x, 0, Full - 1) : p \in Around(At(s), Slack(s)), x \in -2..2 }
RampVals(s) == Around(At(s), Slack(s))
(* sines at every 64th of a cycle, in 1/10000; between them, between them *)
Quarter == << 0, 980, 1951, 2903, 3827, 4714, 5556, 6344, 7071, 7730, 8315, 8819, 9239, 9569, 9808, 9952, 10000 >>
SinAt(i) == LET j == i % 64 IN IF j <= 16 THEN Quarter[j + 1] ELSE IF j <= 32 THEN Quarter[33 - j] ELSE IF j <= 48 THEN -Quarter[j - 31] ELSE -Quarter[65 - j]
SinVals(s) == LET p == At(s)  e == 20 + 10 * Slack(s)
                  lin == SinAt(p \div 512) + ((SinAt(p \div 512 + 1) - SinAt(p \div 512)) * (p % 512)) \div 512
              IN Max2(lin - e, -10000)..Min2(lin + e, 10000)
One(s, R) == { [s |-> s, r |-> <<x>>] : x \in R }

(* down counter: k updates since the phase was set to top; ends after rate * d / n of them when top is full *)
(* shown: leading bits and whether it still runs.  n = 0: stops at the next update.                          *)
Left(s) == IF s.d = 0 \/ s.n = 0 THEN (IF s.k = 0 THEN s.top ELSE 0)
           ELSE LET w == s.rate * s.d IN Max2(0, s.top - ((s.n * s.k) \div w) * Full - Frac((s.n * s.k) % w, w, 15))
(* more than two updates past the end *)
Over(s) == s.k > 2 /\ s.n * (s.k - 2) >= (s.top + 1) * ((s.rate * s.d) \div Full) + ((s.top + 1) * ((s.rate * s.d) % Full)) \div Full
DownVals(s) == IF s.z = 1 THEN { [s |-> s, r |-> <<0, 0>>] }
               ELSE { [s |-> IF r[2] = 0 THEN [s EXCEPT !.z = 1] ELSE s, r |-> r] :
                      r \in { <<x, f>> : x \in Max2(0, Left(s) - 2)..Min2(Full - 1, Left(s) + 2), f \in { g \in 0..1 : IF Left(s) > 2 THEN g = 1 ELSE g = 0 \/ ~Over(s) } } \ { <<x, 0>> : x \in 1..Full } }
Exactly(s) == s.d = 0 \/ s.n = 0      \* ends with the next update
DownStep(s, op, a) ==
  LET Set(n, d) == [s EXCEPT !.top = Left(s), !.k = 0, !.n = n, !.d = d] IN
  CASE op = "freq" -> Ok(Set(a[1], 1), <<>>)
    [] op = "ms" -> Ok(Set(1000, a[1]), <<>>)
    [] op = "phase" -> Ok([s EXCEPT !.top = a[1] \div 2, !.k = 0, !.z = B2I(a[1] = 0 /\ a[2] = 0)], <<>>)
    [] op = "reset" -> Ok([s EXCEPT !.top = Full - 1, !.k = 0, !.z = 0], <<>>)
    [] op = "val" -> DownVals(s)
    [] op = "update" -> LET t == [s EXCEPT !.k = @ + 1] IN IF Exactly(s) THEN Ok([t EXCEPT !.z = 1], <<0, 0>>) ELSE DownVals(t)

(* one shot: high for the updates within q / 4 updates of the start; an update early or late from rounding when q is whole *)
ShotStep(s, op, a) ==
  CASE op = "start" -> Ok([s EXCEPT !.q = a[1], !.k = 0, !.on = B2I(a[1] > 0)], <<>>)
    [] op = "stop" -> Ok([s EXCEPT !.on = 0], <<>>)
    \* rates are in quarters
    [] op = "rate" -> Ok([s EXCEPT !.rate = IF a[1] > 0 THEN a[1] ELSE @], <<>>)
    [] op = "update" ->
         IF s.on = 0 THEN Ok(s, <<0>>)
         ELSE LET t == [s EXCEPT !.k = @ + 1] IN
              IF 4 * s.k < s.q - (IF s.q > 1600 THEN 4 ELSE 0) THEN Ok(t, <<1>>)
              ELSE IF (4 * s.k <= s.q + (IF s.q > 1600 THEN 4 ELSE 0) /\ s.q % 4 = 0) \/ (4 * s.k < s.q + 4 /\ s.q > 1600)
                   THEN Ok(t, <<1>>) \cup Ok([t EXCEPT !.on = 0], <<0>>)
                   ELSE Ok([t EXCEPT !.on = 0], <<0>>)
Step(s, op, a) ==
  IF s.kind = 4 THEN ShotStep(s, op, a)
  ELSE IF s.kind = 3 THEN DownStep(s, op, a)
  ELSE LET Vals(t) == CASE t.kind = 0 -> TriVals(t) [] t.kind = 1 -> RampVals(t) [] t.kind = 2 -> SinVals(t) IN
  CASE op \in {"freq", "ifreq"} -> Ok(Freq(s, a[1] * 4, 1), <<>>)
    [] op = "ffreq" -> Ok([Freq(s, a[1], 1) EXCEPT !.fl = 1], <<>>)
    [] op = "ms" -> Ok(Freq(s, 4000, a[1]), <<>>)
    [] op = "sec" -> Ok(Freq(s, 4, a[1]), <<>>)
    [] op = "phase" -> Ok([s EXCEPT !.base = a[1] \div 2, !.k = 0, !.err = 50000], <<>>)
    [] op = "skip" -> Ok(Run(s, a[1]), <<>>)
    [] op = "val" /\ s.kind # 2 -> One(s, Vals(s))
    [] OTHER -> LET t == Run(s, 1) IN One(t, Vals(t))
Menu(s) == {}
Configs == { <<1, 8, 0>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) == TRUE
=============================================================================
