---------------------------- MODULE CircAccess ----------------------------
(* util/circular_buffer_ext.hh: a read and a write position over external       *)
(* memory of n elements.  Configuration <<backing, n, initial write offset>>.    *)
(* The cross-fade phase is given in quarters (4 = full), or for fine steps as    *)
(* 100 + p, p of 256.  Marker rules:                                             *)
(*   read:         the marked element was among those read                       *)
(*   reverse read: the read position came to the marker (downwards)              *)
(*   write:        the write position came to the marker (upwards)               *)
(* for any transfer of at most n elements.                                       *)
EXTENDS Common

Start(c) == [n |-> c[2], mem |-> Rep(0, c[2]), rd |-> 0, wr |-> c[3]]
\* a large memory is shown by its non-zero places
Shown(t) == IF t.n <= 1000 THEN t.mem
            ELSE LET z == SelectSeq([i \in 1..t.n |-> i], LAMBDA i : t.mem[i] # 0) IN
                 FlattenSeq([i \in 1..Len(z) |-> <<z[i] - 1, t.mem[z[i]]>>])
Obs(t) == <<t.n, t.rd, t.wr>> \o Shown(t)
Res(t, r) == { [s |-> t, r |-> r \o Obs(t)] }

(* the k positions from p on, upwards or downwards *)
Up(s, p, k) == [i \in 1..k |-> (p + i - 1) % s.n]
Down(s, p, k) == [i \in 1..k |-> (p - i + 1) % s.n]
Values(s, ps) == [i \in 1..Len(ps) |-> s.mem[ps[i] + 1]]
Mix(d, old, q) == IF q = 4 THEN d ELSE IF q >= 100 THEN CDiv(d * (q - 100) + old * (356 - q), 256) ELSE CDiv(d * q + old * (4 - q), 4)
RECURSIVE Stored(_, _, _, _)
Stored(mem, ps, vs, q) == IF ps = <<>> THEN mem
                          ELSE Stored([mem EXCEPT ![ps[1] + 1] = Mix(vs[1], @, q)], Tail(ps), Tail(vs), q)
WrapUp(s, p, k) == B2I(p + k >= s.n)
WrapDown(s, p, k) == B2I(k > p)

Step(s, op, a) ==
  CASE op = "read" -> Res([s EXCEPT !.rd = (@ + a[1]) % s.n], <<WrapUp(s, s.rd, a[1])>> \o Values(s, Up(s, s.rd, a[1])))
    [] op = "read_rev" -> Res([s EXCEPT !.rd = (@ - a[1]) % s.n], <<WrapDown(s, s.rd, a[1])>> \o Values(s, Down(s, s.rd, a[1])))
    \* write(q, v1..vk)
    [] op = "write" -> LET k == Len(a) - 1 IN
         Res([s EXCEPT !.mem = Stored(@, Up(s, s.wr, k), Tail(a), a[1]), !.wr = (@ + k) % s.n], <<WrapUp(s, s.wr, k)>>)
    [] op = "write_rev" -> LET k == Len(a) - 1 IN
         Res([s EXCEPT !.mem = Stored(@, Down(s, s.wr, k), Tail(a), a[1]), !.wr = (@ - k) % s.n], <<WrapDown(s, s.wr, k)>>)
    \* read_chk(k, marker) etc.
    [] op = "read_chk" -> Res([s EXCEPT !.rd = (@ + a[1]) % s.n],
                              <<B2I((a[2] - s.rd) % s.n < a[1])>> \o Values(s, Up(s, s.rd, a[1])))
    [] op = "read_rev_chk" -> Res([s EXCEPT !.rd = (@ - a[1]) % s.n],
                                  <<B2I((s.rd - a[2] - 1) % s.n < a[1])>> \o Values(s, Down(s, s.rd, a[1])))
    [] op = "write_chk" -> LET k == Len(a) - 1 IN
         Res([s EXCEPT !.mem = Stored(@, Up(s, s.wr, k), Tail(a), 4), !.wr = (@ + k) % s.n], <<B2I((a[1] - s.wr - 1) % s.n < k)>>)
    [] op = "clear" -> Res([s EXCEPT !.mem = Rep(0, s.n)], <<>>)
    [] op = "rd_pos" -> Res([s EXCEPT !.rd = a[1]], <<>>)
    [] op = "wr_pos" -> Res([s EXCEPT !.wr = a[1]], <<>>)

Menu(s) == { <<o, <<k>> >> : o \in {"read", "read_rev"}, k \in 0..(s.n + 1) }
           \cup { <<o, <<k, m>> >> : o \in {"read_chk", "read_rev_chk"}, k \in 0..s.n, m \in 0..(s.n - 1) }
           \cup { <<o, <<q>> \o Rep(8, k)>> : o \in {"write", "write_rev"}, q \in {4}, k \in 0..(s.n + 1) }
           \cup { <<"write_chk", <<m>> \o Rep(8, k)>> : k \in 0..s.n, m \in 0..(s.n - 1) }
           \cup { <<"clear", <<>> >>, <<"rd_pos", <<s.n - 1>> >>, <<"wr_pos", <<0>> >> }
           \cup (IF 4 \in Range(s.mem) THEN {} ELSE { <<"write", <<2, 0>> >>, <<"write_rev", <<2, 8>> >> })
Configs == { <<b, n, o>> : b \in {0}, n \in {1, 2, 3}, o \in {0} } \cup { <<1, 2, 1>>, <<2, 2, 1>> }
BigConfigs == Configs \cup { <<1, 4, 3>>, <<2, 4, 0>>, <<0, 4, 1>> }
Inv(s) == s.rd \in 0..(s.n - 1) /\ s.wr \in 0..(s.n - 1) /\ Len(s.mem) = s.n
(* only the transferred positions change, and a full-phase write stores the data *)
Safe(s, op, a, r, t) ==
  /\ op \in {"read", "read_rev", "read_chk", "read_rev_chk", "rd_pos", "wr_pos"} => t.mem = s.mem
  /\ op \in {"write", "write_chk"} =>
        \A i \in 0..(s.n - 1) : (i - s.wr) % s.n >= Len(a) - 1 => t.mem[i + 1] = s.mem[i + 1]
  /\ (op = "write" /\ a[1] = 4 /\ Len(a) > 1) => t.mem[((t.wr - 1) % s.n) + 1] = Last1(a)
===========================================================================
