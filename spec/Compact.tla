------------------------------ MODULE Compact ------------------------------
(* util/compact_binary_writer.hh (as a machine), compact_binary_serializer.hh   *)
(* and the parser on what they wrote.  out = the full encoding so far, marks =   *)
(* where the sizes of the open objects stand, items[d] = the entries of the open *)
(* object at depth d (items[1] = top level), each [k, d (bytes), o (entries)].   *)
(* An object still open has size 0 in the encoding.                              *)
EXTENDS CbFormat

(* c = <<key type, size bytes, buffer capacity, bound on the exploration>>; the writers of key type 0 with one-byte    *)
(* sizes and of 4-character keys with one-byte sizes are made for a nesting of 3 objects, the others for 8           *)
Start(c) == [kt |-> c[1], st |-> c[2], cap |-> c[3], lim |-> c[4], out |-> <<>>, marks |-> <<>>, items |-> << <<>> >>]
Levels(s) == IF s.st = 1 /\ s.kt \in {0, 2} THEN 3 ELSE 8
(* n bytes of data made from v *)
Pat(v, n) == [i \in 1..n |-> (v + 37 * (i - 1)) % 256]
Entry(s, k, d) == EncKey(s.kt, k) \o Le(Len(d), s.st) \o d
Item(k, d, o) == [k |-> k, d |-> d, o |-> o]
AddItem(s, it) == [s.items EXCEPT ![Len(s.items)] = Append(@, it)]
K(s, a) == TakeN(a, KeyW(s.kt))
Rest(s, a) == DropN(a, KeyW(s.kt))
Buf(s) == TakeN(s.out, s.cap) \o Rep(238, Max2(0, s.cap - Len(s.out)))
Res(t, r) == { [s |-> t, r |-> <<Len(t.out)>> \o r] }
Put(seq, at, b) == [i \in 1..Len(seq) |-> IF i > at /\ i <= at + Len(b) THEN b[i - at] ELSE seq[i]]

RECURSIVE LookTree(_, _, _)
(* data of the entry a path of keys leads to, or "none" *)
LookTree(kt, its, path) ==
  LET m == { i \in 1..Len(its) : SameKey(kt, its[i].k, path[1]) } IN
  IF m = {} THEN [ok |-> FALSE, d |-> <<>>]
  ELSE LET it == its[Min(m)] IN
       IF Len(path) = 1 THEN [ok |-> TRUE, d |-> it.d] ELSE LookTree(kt, it.o, Tail(path))
RECURSIVE LookBytes(_, _, _, _)
LookBytes(kt, st, blob, path) ==
  LET f == Find(kt, st, blob, path[1]) IN
  IF ~f.complete THEN [ok |-> FALSE, d |-> <<>>]
  ELSE IF Len(path) = 1 THEN [ok |-> TRUE, d |-> Data(blob, f)] ELSE LookBytes(kt, st, Data(blob, f), Tail(path))
Path(s, a) == [i \in 1..(Len(a) \div KeyW(s.kt)) |-> SubSeq(a, (i - 1) * KeyW(s.kt) + 1, i * KeyW(s.kt))]

Step(s, op, a) ==
  CASE op = "field" -> LET d == Pat(Rest(s, a)[2], Rest(s, a)[1]) IN
          Res([s EXCEPT !.out = @ \o Entry(s, K(s, a), d), !.items = AddItem(s, Item(K(s, a), d, <<>>))], <<>>)
    [] op = "raw" -> LET d == Pat(Rest(s, a)[2], Rest(s, a)[1]) IN
          Res([s EXCEPT !.out = @ \o Entry(s, K(s, a), d), !.items = AddItem(s, Item(K(s, a), d, <<>>))], <<>>)
    [] op = "begin" ->
          Res([s EXCEPT !.out = @ \o EncKey(s.kt, a) \o Le(0, s.st), !.marks = Append(@, Len(s.out) + KeyW(s.kt)),
                        !.items = Append(AddItem(s, Item(a, <<>>, <<>>)), <<>>)], <<>>)
    [] op = "end" -> IF s.marks = <<>> THEN Res(s, <<>>)
          ELSE LET m == Last1(s.marks)
                   d == DropN(s.out, m + s.st)
                   up == Front(s.items)
                   parent == Last1(up)
                   done == [parent EXCEPT ![Len(parent)] = Item(@.k, d, Last1(s.items))]
               IN UNION { Res([s EXCEPT !.out = o, !.marks = Front(@), !.items = [up EXCEPT ![Len(up)] = done]], <<>>) :
                     \* the size of an object deeper than the writer is made for may stay 0
                     o \in {Put(s.out, m, Le(Len(d), s.st))} \cup (IF Len(s.marks) > Levels(s) THEN {s.out} ELSE {}) }
    [] op = "look" -> Res(s, Buf(s))
    \* measure, serialize (size, buffer), stream (size, bytes): the same document
    [] op = "others" -> Res(s, <<Len(s.out), Len(s.out)>> \o Buf(s) \o <<Len(s.out)>> \o s.out)
    [] op = "lookup" -> LET f == LookBytes(s.kt, s.st, s.out, Path(s, a)) IN Res(s, <<Len(f.d)>> \o f.d \o Gets(f.d, f.ok))

KeysOf(kt) == CASE kt = 0 -> { <<1>>, <<2>> } [] kt = 1 -> { <<1, 0>>, <<1, 1>> } [] kt = 2 -> { <<97, 0, 0, 0>>, <<97, 98, 99, 100>> }
                [] kt = 4 -> { <<1, 2, 3, 4>> }
Menu(s) ==
  (IF Len(s.out) >= s.lim * Head0(s.kt, s.st) THEN {} ELSE
    { <<"field", k \o <<n, 200>> >> : k \in KeysOf(s.kt), n \in {2} } \cup { <<"raw", k \o <<n, 7>> >> : k \in KeysOf(s.kt), n \in {0} }
    \cup { <<"begin", k>> : k \in { x \in KeysOf(s.kt) : Len(s.marks) < 3 } })
  \cup { <<o, <<>> >> : o \in {"end", "look"} }
  \cup (IF s.marks = <<>> THEN { <<"others", <<>> >> } \cup { <<"lookup", k>> : k \in KeysOf(s.kt) } \cup { <<"lookup", j \o k>> : j, k \in KeysOf(s.kt) } ELSE {})
Configs == { <<0, 1, 9, 4>>, <<0, 2, 40, 3>>, <<2, 1, 0, 3>> }
BigConfigs == Configs \cup { <<1, 2, 13, 3>>, <<2, 4, 17, 3>>, <<0, 1, 30, 4>> }

Inv(s) == Len(s.items) = Len(s.marks) + 1
IsObj(its, path) == LET m == { i \in 1..Len(its) : its[i].k = path[1] } IN m # {} /\ its[Min(m)].o # <<>>
Fits(s) == Len(s.out) < 256
Safe(s, op, a, r, t) ==
  \* whatever was written is what is read back, as long as it is followed through objects
  /\ op = "lookup" /\ Fits(s) /\ (Len(Path(s, a)) = 1 \/ IsObj(s.items[1], Path(s, a)))
       => LET w == LookTree(s.kt, s.items[1], Path(s, a)) IN r = <<Len(s.out), Len(w.d)>> \o w.d \o Gets(w.d, w.ok)
  /\ op \in {"field", "raw", "begin"} => TakeN(t.out, Len(s.out)) = s.out
=============================================================================
