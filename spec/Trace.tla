------------------------------- MODULE Trace -------------------------------
(* Trace validation: every recorded event of the real code must be a step   *)
(* allowed by the component specification.  One state per consumed line;     *)
(* the event "new" (re)constructs the object, so one trace file carries many *)
(* independent histories.                                                    *)
EXTENDS Common, Json, IOUtils
CONSTANTS MStart(_), MStep(_,_,_), MInv(_), MSafe(_,_,_,_,_)
VARIABLES st, l

Tr == ndJsonDeserialize(IOEnv.VT_TRACE)

TInit == l = 1 /\ st = [none |-> 0]

TNext == /\ l <= Len(Tr)
         /\ l' = l + 1
         /\ LET e == Tr[l] IN
              IF e.op = "new" THEN st' = MStart(e.a)
              \* the object was replaced by a copy of itself: nothing observable changes
              ELSE IF e.op = "dup" THEN e.r = <<>> /\ st' = st
              ELSE \E o \in MStep(st, e.op, e.a) :
                      /\ o.r = e.r
                      /\ MSafe(st, e.op, e.a, e.r, o.s) = TRUE      \* (an expression, not an action: quantifiers may be wide)
                      /\ st' = o.s

TSpec == TInit /\ [][TNext]_<<st, l>>
TInvariant == (l > 1) => MInv(st)
TraceAccepted == PrintT("MATCHED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Tr)))
============================================================================
