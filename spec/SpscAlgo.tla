------------------------------ MODULE SpscAlgo ------------------------------
(* The SPSC algorithm itself, one action per atomic access or slot access,    *)
(* under C++20 release/acquire: a load may return any store the thread may     *)
(* still read (not older than what it read or learnt through synchronisation). *)
(* Both counters only grow, one writer each, so "the k-th store of head" is    *)
(* simply the value k.  hbW = number of slot writes that happen-before the     *)
(* consumer's next step, hbR = number of slot reads that happen-before the     *)
(* producer's next step.                                                       *)
(* Constants: N slots, K puts, memory orders as booleans, Weak loads.          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, K, Weak, HeadRelease, HeadAcquire, TailRelease, TailAcquire, RemoveAcquire
VARIABLES head, tail,        \* newest stores
          ppc, pt,           \* producer: program counter, tail value read
          cpc, ch,           \* consumer: program counter, head value read
          seenT, seenH,      \* oldest store each thread may still read (coherence)
          hbW, hbR, hbRacc,  \* happens-before knowledge; reads done by the consumer so far
          slots, got, want,  \* memory, consumed values, value handed to the consumer
          race
vars == <<head, tail, ppc, pt, cpc, ch, seenT, seenH, hbW, hbR, hbRacc, slots, got, want, race>>

Init == /\ head = 0 /\ tail = 0 /\ ppc = "idle" /\ pt = 0 /\ cpc = "idle" /\ ch = 0
        /\ seenT = 0 /\ seenH = 0 /\ hbW = 0 /\ hbR = 0 /\ hbRacc = <<0>>
        /\ slots = [i \in 0..(N - 1) |-> 0] /\ got = <<>> /\ want = 0 /\ race = FALSE

(* ---- producer: put(head + 1) *)
PLoadTail == /\ ppc = "idle" /\ head < K
             /\ \E v \in (IF Weak THEN seenT..tail ELSE {tail}) :
                  /\ pt' = v /\ seenT' = v
                  /\ hbR' = IF TailAcquire /\ TailRelease /\ hbRacc[v + 1] > hbR THEN hbRacc[v + 1] ELSE hbR
                  /\ ppc' = IF head - v = N THEN "idle" ELSE "write"
             /\ UNCHANGED <<head, tail, cpc, ch, seenH, hbW, hbRacc, slots, got, want, race>>
(* writing position head reuses the slot of position head - N: its read, if any, must be known *)
PWrite == /\ ppc = "write"
          /\ slots' = [slots EXCEPT ![head % N] = head + 1]
          /\ race' = (race \/ (head >= N /\ hbR < head - N + 1))
          /\ ppc' = "publish"
          /\ UNCHANGED <<head, tail, pt, cpc, ch, seenT, seenH, hbW, hbR, hbRacc, got, want>>
PPublish == /\ ppc = "publish" /\ head' = head + 1 /\ ppc' = "idle"
            /\ UNCHANGED <<tail, pt, cpc, ch, seenT, seenH, hbW, hbR, hbRacc, slots, got, want, race>>

(* ---- consumer: get, or remove_first (takes the element without reading it), or reset *)
CLoadHead(kind) ==
  /\ cpc = "idle"
  /\ \E v \in (IF Weak THEN seenH..head ELSE {head}) :
       /\ ch' = v /\ seenH' = v
       /\ hbW' = IF HeadRelease /\ (IF kind = "get" THEN HeadAcquire ELSE RemoveAcquire) /\ v > hbW THEN v ELSE hbW
       /\ cpc' = IF v = tail THEN "idle" ELSE kind
  /\ UNCHANGED <<head, tail, ppc, pt, seenT, hbR, hbRacc, slots, got, want, race>>
CRead == /\ cpc = "get"
         /\ want' = slots[tail % N]
         /\ race' = (race \/ hbW < tail + 1)
         /\ cpc' = "release"
         /\ UNCHANGED <<head, tail, ppc, pt, ch, seenT, seenH, hbW, hbR, hbRacc, slots, got>>
Advance(n) == /\ tail' = tail + n
              \* a release store of tail carries the knowledge that all earlier positions are done with
              /\ hbRacc' = hbRacc \o [i \in 1..n |-> tail + i]
CRelease == /\ cpc = "release" /\ Advance(1) /\ got' = Append(got, want) /\ cpc' = "idle"
            /\ UNCHANGED <<head, ppc, pt, ch, seenT, seenH, hbW, hbR, slots, want, race>>
CRemove == /\ cpc = "remove" /\ Advance(1) /\ got' = Append(got, tail + 1) /\ cpc' = "idle"
           /\ UNCHANGED <<head, ppc, pt, ch, seenT, seenH, hbW, hbR, slots, want, race>>
CReset == /\ cpc = "reset" /\ Advance(ch - tail) /\ got' = got \o [i \in 1..(ch - tail) |-> tail + i] /\ cpc' = "idle"
          /\ UNCHANGED <<head, ppc, pt, ch, seenT, seenH, hbW, hbR, slots, want, race>>

Next == PLoadTail \/ PWrite \/ PPublish \/ CLoadHead("get") \/ CLoadHead("remove") \/ CLoadHead("reset")
        \/ CRead \/ CRelease \/ CRemove \/ CReset
Spec == Init /\ [][Next]_vars

(* every element exactly once, in order, intact (value p + 1 sits at position p) *)
ExactlyOnceInOrder == got = [i \in 1..Len(got) |-> i]
NoRace == ~race
Bounded == tail <= head /\ head - tail <= N /\ seenT <= tail /\ seenH <= head
(* what a thread sees is never more than what is there *)
Conservative == (ppc # "idle" => head - pt < N) /\ (cpc \in {"get", "remove", "reset"} => ch > tail /\ ch <= head)
=============================================================================
