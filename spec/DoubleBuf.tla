----------------------------- MODULE DoubleBuf -----------------------------
(* util/doublebuf_stream.hh.  Two buffers of `size` elements: what is being   *)
(* transmitted (fly, NONE when idle) and what waits (pend).                   *)
(* The transmitter's answers are chosen by the environment; the argument list *)
(* of a call starts with the answer given to a transmission it may start:     *)
(*   0 refuse, 1 accept.  Completion arrives between two calls: the header     *)
(* says that it must not interrupt transmit() or the start of a transmission.  *)
EXTENDS Common
NONE == <<-1>>
Start(c) == [size |-> c[1], fly |-> NONE, pend |-> <<>>]
(* result: return value, then one entry <<len, data..>> per transmission handed to the transmitter *)
Sent(x) == <<Len(x)>> \o x
Idle(s) == s.fly = NONE
Out(t, r) == { [s |-> t, r |-> r] }

Step(s, op, a) ==
  CASE op = "transmit" ->
         LET w == DropN(a, 1)  q == s.pend \o w IN
         IF Len(q) > s.size THEN Out(s, <<0>>)                               \* refused as a whole
         ELSE IF ~Idle(s) THEN Out([s EXCEPT !.pend = q], <<1>>)             \* queued
         ELSE (CASE a[1] = 0 -> Out(s, <<0>> \o Sent(q))                      \* not sent: not accepted
                [] a[1] = 1 -> Out([s EXCEPT !.fly = q, !.pend = <<>>], <<1>> \o Sent(q)))
    \* a word of a huge number of elements (a[2]) is refused
    [] op = "huge" -> IF a[2] \in 0..s.size THEN {} ELSE Out(s, <<0>>)
    \* completion; result starts with the transmitted memory as found at completion time
    [] op = "done" ->
         IF Idle(s) THEN Out(s, <<0>>)                                       \* spurious: ignored
         ELSE IF s.pend = <<>> THEN Out([s EXCEPT !.fly = NONE], Sent(s.fly))
         ELSE (CASE a[1] = 0 -> Out([s EXCEPT !.fly = NONE], Sent(s.fly) \o Sent(s.pend))   \* stays queued
                [] a[1] = 1 -> Out([s EXCEPT !.fly = s.pend, !.pend = <<>>], Sent(s.fly) \o Sent(s.pend)))

Words(n) == UNION { [1..k -> 1..2] : k \in 1..n }
Menu(s) == { <<"huge", <<m, k>> >> : m \in {1}, k \in {-1, 256, 65536} } \cup { <<"transmit", <<m>> \o w>> : m \in 0..1, w \in Words(s.size) }
           \cup { <<"transmit", <<m>> \o Rep(1, s.size + 1)>> : m \in 0..1 }
           \cup (IF s.pend # <<>> THEN { <<"transmit", <<m>> >> : m \in 0..1 } ELSE {})
           \cup { <<"done", <<m>> >> : m \in 0..1 }
Configs == { <<1>>, <<2>> }
BigConfigs == { <<1>>, <<2>>, <<3>> }
Inv(s) == Len(s.pend) <= s.size /\ (~Idle(s) => Len(s.fly) <= s.size)
(* exactly once, in order: everything accepted and not yet completed is fly then pend; *)
(* a call moves data along this line, never drops, repeats or reorders it              *)
Line(s) == (IF Idle(s) THEN <<>> ELSE s.fly) \o s.pend
Safe(s, op, a, r, t) ==
  /\ (op = "transmit") =>
        LET w == DropN(a, 1) IN
        IF r[1] = 0 THEN t = s ELSE Line(t) = Line(s) \o w
  /\ (op = "done" /\ ~Idle(s)) => IsSuffix(Line(t), s.pend)
============================================================================
