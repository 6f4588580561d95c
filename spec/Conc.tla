------------------------------- MODULE Conc -------------------------------
(* Concurrent histories.  A recorded history is a sequence of call ("C"),    *)
(* return ("T") and end-of-history ("F") events of several threads; it is     *)
(* accepted iff there is a moment within every call at which it takes effect  *)
(* atomically, as allowed by the component specification:                     *)
(*   CStart(c)            abstract state of a fresh object                    *)
(*   CCall(s, t, op, a)   bookkeeping when thread t starts a call             *)
(*   CStep(s, t, op, a)   the set of allowed effects [s, r]                   *)
(*   CEnd(s, r)           what may be observed when all threads are done      *)
(* Effects are placed lazily, just before some return needs them, which loses *)
(* no generality.  Many histories are concatenated ("N" starts the next one). *)
EXTENDS Common, Json, IOUtils
CONSTANTS CStart(_), CCall(_,_,_,_), CStep(_,_,_,_), CEnd(_,_), CInv(_)
VARIABLES st, pend, l

Tr == ndJsonDeserialize(IOEnv.VT_TRACE)
Idle == [k |-> "idle", op |-> "", a |-> <<>>, r |-> <<>>]
NoPend == [t \in 0..3 |-> Idle]
vars == <<st, pend, l>>

CInit == l = 1 /\ st = [none |-> 0] /\ pend = NoPend

New(e) == st' = CStart(e.a) /\ pend' = NoPend /\ l' = l + 1
Call(e) == /\ st' = CCall(st, e.t, e.op, e.a)
           /\ pend' = [pend EXCEPT ![e.t] = [k |-> "called", op |-> e.op, a |-> e.a, r |-> <<>>]]
           /\ l' = l + 1
Return(e) == /\ pend[e.t].k = "done" /\ pend[e.t].r = e.r
             /\ pend' = [pend EXCEPT ![e.t] = Idle]
             /\ l' = l + 1 /\ UNCHANGED st
Effect(t) == /\ pend[t].k = "called"
             /\ \E o \in CStep(st, t, pend[t].op, pend[t].a) :
                   /\ st' = o.s
                   /\ pend' = [pend EXCEPT ![t].k = "done", ![t].r = o.r]
             /\ UNCHANGED l
End(e) == CEnd(st, e.r) /\ l' = l + 1 /\ UNCHANGED <<st, pend>>

CNext == /\ l <= Len(Tr)
         /\ LET e == Tr[l] IN
              CASE e.k = "N" -> New(e)
                [] e.k = "C" -> Call(e)
                [] e.k = "T" -> IF pend[e.t].k = "done" THEN Return(e) ELSE \E t \in 0..3 : Effect(t)
                [] e.k = "F" -> End(e)

CSpec == CInit /\ [][CNext]_vars
CInvariant == (l > 1) => CInv(st)
(* furthest line reached: TLC runs with one worker *)
Reach == TLCSet(1, Max2(TLCGet(1), l))
ASSUME TLCSet(1, 0)
Accepted == PrintT("MATCHED " \o ToString(TLCGet(1) - 1) \o " OF " \o ToString(Len(Tr)))
===========================================================================
