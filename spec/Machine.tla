------------------------------ MODULE Machine ------------------------------
(* Generic sequential component: a labelled transition system given by      *)
(*   MConfigs          the configurations explored exhaustively              *)
(*   MStart(c)         the abstract state just after construction            *)
(*   MStep(s, op, a)   the SET of allowed outcomes [s, r] of calling op(a)   *)
(*   MMenu(s)          the calls <<op, a>> explored from s                   *)
(*   MInv(s)           state invariant                                       *)
(*   MSafe(s,op,a,r,t) step property: the listed property, stated            *)
(*                     declaratively and independently of MStep              *)
(* TLC visits every reachable abstract state, evaluates MInv everywhere and  *)
(* MSafe on every step, and prints every transition (ACTION_CONSTRAINT) so   *)
(* that each one is replayed into the real code.                             *)
EXTENDS Common, Json
CONSTANTS MConfigs, MStart(_), MStep(_,_,_), MMenu(_), MInv(_), MSafe(_,_,_,_,_)
VARIABLES st, last

MInit == \E c \in MConfigs : st = MStart(c) /\ last = [op |-> "new", a |-> c, r |-> <<>>]

MNext == \E m \in MMenu(st) : \E o \in MStep(st, m[1], m[2]) :
            /\ st' = o.s
            /\ last' = [op |-> m[1], a |-> m[2], r |-> o.r]

MSpec == MInit /\ [][MNext]_<<st, last>>

(* `last` is an observation, not state: it is hidden from the fingerprint *)
MView == st

MInvariant == MInv(st)
StepIsSafe == [][MSafe(st, last'.op, last'.a, last'.r, st')]_<<st, last>>

PrintInit == (last.op = "new") => PrintT("INIT " \o ToJson(<<st, last.a>>))
PrintStep == PrintT("EDGE " \o ToJson(<<st, last'.op, last'.a, last'.r, st'>>))
============================================================================
