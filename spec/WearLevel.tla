----------------------------- MODULE WearLevel -----------------------------
(* util/wear_level.hh: the newest of n cells holding valid data is the        *)
(* current value.  Cells can be written once after an erase of the whole     *)
(* medium; a write goes to the next writable cell and erases only when none  *)
(* is left above the write position.                                         *)
(*   med[i]   content of cell i-1: BLANK (erased), JUNK (not blank, not      *)
(*            valid), or a value > 0                                         *)
(*   pos      where the next write is tried (0..n)                           *)
(*   unread   cells whose read currently reports failure                     *)
(*   allowed  ghost: the values a read may return after a restart now        *)
(*            (0: no data; ANY: no promise, after a power loss or fault      *)
(*            around an erase)                                               *)
(* Configuration <<class, n, c1..cn>>: class 0 WearLeveler, 1 WearLevel;      *)
(* initial contents of the medium (default: blank).                          *)
EXTENDS Common

BLANK == -1
JUNK == 0
ANY == -1
Valid(x) == x > 0
(* the newest readable valid cell below p: its index 1..p, or 0 *)
Newest(med, unread, p) ==
  LET S == { i \in 1..p : Valid(med[i]) /\ i \notin unread } IN IF S = {} THEN 0 ELSE Max(S)
ValueAt(med, i) == IF i = 0 THEN 0 ELSE med[i]
Restarted(s) == [s EXCEPT !.pos = Newest(s.med, s.unread, s.n)]
Start(c) ==
  LET n == c[2]
      m == IF Len(c) > 2 THEN [i \in 1..n |-> c[2 + i]] ELSE Rep(BLANK, n)
      s0 == Restarted([n |-> n, med |-> m, pos |-> 0, unread |-> {}, allowed |-> {}])
  IN [s0 EXCEPT !.allowed = { ValueAt(m, s0.pos) }]
Current(s) == ValueAt(s.med, Newest(s.med, s.unread, s.pos))

(* first writable cell at or above p (index p+1..n), or n+1 *)
Writable(s, med, p) ==
  LET S == { i \in (p + 1)..s.n : med[i] = BLANK } IN IF S = {} THEN s.n + 1 ELSE Min(S)
(* every result ends with the destructive calls the medium received, in order:   *)
(* <<1, 0>> erase, <<2, cell>> write, and with the content of the medium         *)
Obs(t) == t.med
Out(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

(* How one storage write behaves (wf) *)
Written(med, i, v, wf) == CASE wf = 0 -> [ok |-> 1, med |-> [med EXCEPT ![i] = v]]      \* fine
                            [] wf = 1 -> [ok |-> 0, med |-> med]                        \* reports failure, nothing stored
                            [] wf = 2 -> [ok |-> 0, med |-> [med EXCEPT ![i] = JUNK]]   \* reports failure, torn
                            [] wf = 3 -> [ok |-> 0, med |-> [med EXCEPT ![i] = v]]      \* reports failure, stored anyway
                            [] wf = 4 -> [ok |-> 1, med |-> med]                        \* silently not stored (bad cell)
(* How one erase behaves (ef) *)
Half(s) == s.n \div 2
Erased(s, ef) == CASE ef = 0 -> [ok |-> 1, med |-> Rep(BLANK, s.n)]
                   [] ef = 1 -> [ok |-> 0, med |-> s.med]
                   [] ef = 2 -> [ok |-> 0, med |-> Rep(BLANK, s.n)]
                   [] ef = 3 -> [ok |-> 0, med |-> [i \in 1..s.n |-> IF i <= Half(s) THEN BLANK ELSE s.med[i]]]
                   [] ef = 4 -> [ok |-> 1, med |-> Rep(JUNK, s.n)]
                   [] ef = 5 -> [ok |-> 1, med |-> [i \in 1..s.n |-> IF i = 1 THEN JUNK ELSE BLANK]]

(* One write of v (0: data that does not validate) under write fault wf and erase fault ef *)
DoWrite(s, v, wf, ef) ==
  LET i == Writable(s, s.med, s.pos)
      store(med, j, log) ==
        LET w == Written(med, j, v, wf) IN
        [s |-> [s EXCEPT !.med = w.med, !.pos = j], ok |-> w.ok, log |-> log \o <<2, j - 1>>]
  IN IF i <= s.n THEN store(s.med, i, <<>>)
     ELSE LET e == Erased(s, ef) IN
          IF e.ok = 0 THEN [s |-> [s EXCEPT !.med = e.med, !.pos = s.n], ok |-> 0, log |-> <<1, 0>>]
          ELSE LET j == Writable(s, e.med, 0) IN
               IF j <= s.n THEN store(e.med, j, <<1, 0>>)
               ELSE [s |-> [s EXCEPT !.med = e.med, !.pos = s.n], ok |-> 0, log |-> <<1, 0>>]

MustErase(s) == Writable(s, s.med, s.pos) > s.n

(* Power loss at destructive call number k of a write of v, leaving effect x:  *)
(* 0 not begun, 1 torn / first half erased, 2 complete; then a restart.        *)
DoCrash(s, v, k, x) ==
  LET i == Writable(s, s.med, s.pos)
      cut(med, j) == [med EXCEPT ![j] = CASE x = 0 -> med[j] [] x = 1 -> JUNK [] x = 2 -> v]
      done == [m |-> DoWrite(s, v, 0, 0).s.med, full |-> TRUE]
  IN IF i <= s.n THEN IF k = 1 THEN [m |-> cut(s.med, i), full |-> FALSE] ELSE done
     ELSE IF k = 1 THEN [m |-> CASE x = 0 -> s.med [] x = 1 -> Erased(s, 3).med [] x = 2 -> Rep(BLANK, s.n), full |-> FALSE]
     ELSE IF k = 2 THEN [m |-> cut(Rep(BLANK, s.n), 1), full |-> FALSE]
     ELSE done

Step(s, op, a) ==
  CASE op = "write" ->              \* a = <<v, wf, ef>>
         LET d == DoWrite(s, a[1], a[2], a[3])
             silent == a[2] = 0 /\ a[3] = 0
             al == IF ~silent /\ ~(a[3] = 0 /\ a[2] = 1) THEN {ANY}
                   ELSE IF a[2] = 1 THEN IF MustErase(s) THEN {ANY} ELSE s.allowed
                   ELSE IF Valid(a[1]) THEN {a[1]}
                   ELSE IF MustErase(s) THEN {0} ELSE s.allowed
         IN Out([d.s EXCEPT !.allowed = al], <<d.ok>> \o d.log)
    [] op = "crash" ->              \* a = <<v, k, x>>: power loss inside a write, then restart
         LET d == DoCrash(s, a[1], a[2], a[3])
             al == IF d.full /\ Valid(a[1]) THEN {a[1]}
                   ELSE IF MustErase(s) THEN {ANY}
                   ELSE s.allowed \cup (IF Valid(a[1]) THEN {a[1]} ELSE {})
         IN Out([Restarted([s EXCEPT !.med = d.m]) EXCEPT !.allowed = al], <<>>)
    [] op = "restart" -> Out(Restarted(s), <<>>)
    [] op = "read" ->
         LET c == Current(s) IN
         Out([s EXCEPT !.allowed = IF ANY \in @ THEN @ ELSE {c}], IF c = 0 THEN <<0, 0>> ELSE <<1, c>>)
    [] op = "unread" -> Out([s EXCEPT !.unread = { a[i] + 1 : i \in 1..Len(a) }, !.allowed = {ANY}], <<>>)

Vals == 1..2
Menu(s) == { <<"write", <<v, 0, 0>> >> : v \in 0..2 } \cup { <<"restart", <<>> >>, <<"read", <<>> >> }
           \cup { <<"crash", <<v, k, x>> >> : v \in Vals, k \in 1..3, x \in 0..2 }
MenuFault(s) ==
  { <<"write", <<v, wf, ef>> >> : v \in 0..2, wf \in 0..4, ef \in 0..5 }
  \cup { <<"restart", <<>> >>, <<"read", <<>> >> }
  \cup { <<"crash", <<2, k, x>> >> : k \in 1..2, x \in 0..2 }
  \cup { <<"unread", <<>> >> } \cup { <<"unread", <<i>> >> : i \in 0..(s.n - 1) }
Configs == { <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<0, 3, 0, 0, 0>>, <<1, 3, 1, 2, -1>>, <<0, 3, 2, 0, -1>> }
BigConfigs == Configs \cup { <<0, 4>>, <<1, 4>>, <<0, 4, 1, 0, 2, -1>>, <<0, 5>> }
ConfigsFault == { <<0, 1>>, <<0, 2>>, <<1, 2>>, <<1, 1>> }
BigConfigsFault == ConfigsFault \cup { <<0, 3>>, <<1, 3>>, <<0, 3, 0, 1, 0>> }

Inv(s) == /\ s.pos \in 0..s.n
          (* the durability property: what is read now, and what a restart would read, is promised *)
          /\ ANY \in s.allowed \/ (Current(s) \in s.allowed /\ Current(Restarted(s)) \in s.allowed)
Erases(r) == \E i \in DOMAIN r : FALSE
Safe(s, op, a, r, t) ==
  \* data that is reported comes from the medium
  /\ (op = "read" /\ r[1] = 1) => \E i \in 1..s.n : s.med[i] = r[2] /\ i \notin s.unread
  \* a successful write without faults is durable at once
  /\ (op = "write" /\ a[2] = 0 /\ a[3] = 0 /\ r[1] = 1 /\ Valid(a[1])) => \E i \in 1..t.n : t.med[i] = a[1]
  \* erase only when nothing above the write position is writable
  /\ (op = "write" /\ r[2] = 1) => \A i \in (s.pos + 1)..s.n : s.med[i] # BLANK
  \* only destructive calls change the medium
  /\ (op \in {"read", "restart", "unread"}) => t.med = s.med
InvFault(s) == s.pos \in 0..s.n
============================================================================
