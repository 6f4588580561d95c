------------------------------ MODULE HbTrace ------------------------------
(* C++20 happens-before over recorded memory events, as vector clocks.        *)
(* Events: N initial counts of stores per location (they happen before all)   *)
(*   L t loc order k   atomic load that read the k-th store of loc            *)
(*   S t loc order     atomic store (next in the modification order of loc)   *)
(*   X t loc order     atomic read-modify-write (continues the release        *)
(*                     sequence of the store it read)                         *)
(*   F t order         thread fence                                           *)
(*   R t e / W t e     plain read / write of a shared element                 *)
(* A plain access that races - that is not ordered by happens-before with an  *)
(* earlier conflicting access of another thread - is not a step of this       *)
(* specification, so the trace is not accepted beyond it.                     *)
(* Orders: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst   *)
EXTENDS Common, Json, IOUtils
VARIABLES vc, acqp, relf, mo, lw, lr, l
vars == <<vc, acqp, relf, mo, lw, lr, l>>

Tr == ndJsonDeserialize(IOEnv.VT_TRACE)
Threads == 0..3
Zero == [t \in Threads |-> 0]
Join(x, y) == [t \in Threads |-> Max2(x[t], y[t])]
Leq(x, y) == \A t \in Threads : x[t] <= y[t]
Acq(o) == o \in {1, 2, 4, 5}
Rel(o) == o \in {3, 4, 5}
None == [t |-> 9, c |-> 0]

Init == /\ l = 1 /\ vc = [t \in Threads |-> Zero] /\ acqp = vc /\ relf = vc
        /\ mo = <<>> /\ lw = <<>> /\ lr = <<>>

(* clock of t with one more event *)
Tick(t) == [vc[t] EXCEPT ![t] = @ + 1]
Ordered(w, c) == IF w.t = 9 THEN TRUE ELSE w.c <= c[w.t]
LastW(e) == IF e \in DOMAIN lw THEN lw[e] ELSE None
LastR(e) == IF e \in DOMAIN lr THEN lr[e] ELSE Zero

New(e) == /\ vc' = [t \in Threads |-> Zero] /\ acqp' = vc' /\ relf' = vc'
          /\ mo' = [i \in 0..(Len(e.a) - 1) |-> Rep(Zero, e.a[i + 1])]
          /\ lw' = <<>> /\ lr' = <<>>
Load(t, loc, o, k) ==
  LET c == mo[loc][k + 1] IN
  /\ vc' = [vc EXCEPT ![t] = IF Acq(o) THEN Join(Tick(t), c) ELSE Tick(t)]
  /\ acqp' = [acqp EXCEPT ![t] = Join(@, c)]
  /\ UNCHANGED <<relf, mo, lw, lr>>
Store(t, loc, o) ==
  /\ vc' = [vc EXCEPT ![t] = Tick(t)]
  /\ mo' = [mo EXCEPT ![loc] = Append(@, IF Rel(o) THEN Tick(t) ELSE relf[t])]
  /\ UNCHANGED <<acqp, relf, lw, lr>>
Rmw(t, loc, o) ==
  LET c == Last1(mo[loc])
      v == IF Acq(o) THEN Join(Tick(t), c) ELSE Tick(t) IN
  /\ vc' = [vc EXCEPT ![t] = v]
  /\ acqp' = [acqp EXCEPT ![t] = Join(@, c)]
  /\ mo' = [mo EXCEPT ![loc] = Append(@, Join(c, IF Rel(o) THEN v ELSE relf[t]))]
  /\ UNCHANGED <<relf, lw, lr>>
Fence(t, o) ==
  LET v == IF Acq(o) THEN Join(Tick(t), acqp[t]) ELSE Tick(t) IN
  /\ vc' = [vc EXCEPT ![t] = v]
  /\ relf' = [relf EXCEPT ![t] = IF Rel(o) THEN v ELSE @]
  /\ UNCHANGED <<acqp, mo, lw, lr>>
Read(t, e) ==
  /\ Ordered(LastW(e), vc[t])
  /\ vc' = [vc EXCEPT ![t] = Tick(t)]
  /\ lr' = (e :> [LastR(e) EXCEPT ![t] = vc[t][t] + 1]) @@ lr
  /\ UNCHANGED <<acqp, relf, mo, lw>>
Write(t, e) ==
  /\ Ordered(LastW(e), vc[t])
  /\ Leq(LastR(e), vc[t])
  /\ vc' = [vc EXCEPT ![t] = Tick(t)]
  /\ lw' = (e :> [t |-> t, c |-> vc[t][t] + 1]) @@ lw
  /\ UNCHANGED <<acqp, relf, mo, lr>>

Next == /\ l <= Len(Tr)
        /\ l' = l + 1
        /\ LET e == Tr[l] a == Tr[l].a IN
             CASE e.k = "N" -> New(e)
               [] e.k = "L" -> Load(a[1], a[2], a[3], a[4])
               [] e.k = "S" -> Store(a[1], a[2], a[3])
               [] e.k = "X" -> Rmw(a[1], a[2], a[3])
               [] e.k = "F" -> Fence(a[1], a[2])
               [] e.k = "R" -> Read(a[1], a[2])
               [] e.k = "W" -> Write(a[1], a[2])
Spec == Init /\ [][Next]_vars
Accepted == PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Tr)))
============================================================================
