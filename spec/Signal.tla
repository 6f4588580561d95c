------------------------------- MODULE Signal -------------------------------
(* util/analyzed_signal.hh.                                                     *)
EXTENDS Common

(* c = <<0, type>> PeakMeter; <<1, n>> AnalyzedSig with coefficient 1/n, values in 1/256 *)
Start(c) == [k |-> c[1], c |-> c[2], w |-> <<>>, avg |-> 0]
(* w: the extremes of the samples seen since the last reset, <<>> before the first *)
Seen(w, v) == IF w = <<>> THEN <<v, v>> ELSE << Min2(w[1], v), Max2(w[2], v) >>
Shown(s) == IF s.w = <<>> THEN << 99999, IF s.k = 0 /\ s.c \in {2, 5} THEN 0 ELSE -99999 >> ELSE s.w

(* the average moves 1/n of the way to each new sample; rounding of the shown value and of the float allowed for *)
Moved(s, v) == LET ideal == (s.avg * (s.c - 1) + v) IN { x \in ((ideal \div s.c) - 2)..((ideal \div s.c) + 3) : AbsV(x * s.c - ideal) <= s.c }

Step(s, op, a) ==
  IF s.k = 0 THEN LET t == IF op = "look" THEN s ELSE IF op = "reset" THEN [s EXCEPT !.w = <<>>] ELSE [s EXCEPT !.w = Seen(@, a[1])] IN Ok(t, Shown(t))
  ELSE IF op = "look" THEN Ok(s, Shown(s) \o <<s.avg>>)
  ELSE IF op = "reset_to" THEN LET t == [s EXCEPT !.w = <<a[1], a[1]>>, !.avg = a[1]] IN Ok(t, t.w \o <<a[1]>>)
  ELSE { [s |-> [s EXCEPT !.w = Seen(@, a[1]), !.avg = x], r |-> Seen(s.w, a[1]) \o <<x>>] : x \in Moved(s, a[1]) }

Samples(s) == IF s.k = 0 /\ s.c \in {2, 5} THEN 0..3 ELSE -2..2
Menu(s) ==
  IF s.k = 0 THEN { <<"reset", <<>>>>, <<"look", <<>>>> } \cup { <<"update", <<v>>>> : v \in Samples(s) }
  ELSE { <<"reset_to", <<v * 256>>>> : v \in -1..1 } \cup { <<"update", <<v * 256>>>> : v \in Samples(s) }
Configs == { <<0, t>> : t \in 0..7 }
BigConfigs == Configs
Inv(s) == s.w # <<>> => s.w[1] <= s.w[2]
Safe(s, op, a, r, t) ==
  IF op \in {"update", "reset_to"} THEN r[1] <= a[1] /\ a[1] <= r[2] /\ (Len(r) = 3 => r[3] >= Min2(r[1], 0) - 2 /\ r[3] <= Max2(r[2], 0) + 2)   \* the average starts from 0
  ELSE TRUE
=============================================================================
