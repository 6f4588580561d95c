------------------------------ MODULE CbFormat ------------------------------
(* The compact binary format: entries [key][data size][data], little endian.   *)
(* kt: key type 0 = one byte, 1 = two bytes, 2 = char[4], 3 = char[3], 4 = four *)
(* bytes, 6 = char[300].  st: width of the size in bytes; st = -1: one signed byte.            *)
EXTENDS Common

KeyW(kt) == CASE kt = 0 -> 1 [] kt = 1 -> 2 [] kt = 2 -> 4 [] kt = 3 -> 3 [] kt = 4 -> 4 [] kt = 6 -> 300
IsArr(kt) == kt \in {2, 3, 6}
SzW(st) == AbsV(st)
Head0(kt, st) == KeyW(kt) + SzW(st)
Huge == 2147483647
Pow256(i) == CASE i = 0 -> 1 [] i = 1 -> 256 [] i = 2 -> 65536 [] i = 3 -> 16777216
(* the value of little-endian bytes, everything from 2^31 - 1 up being Huge *)
Num(b, st) == IF st = -1 THEN (IF b[1] >= 128 THEN Huge ELSE b[1])
              ELSE IF \E i \in 5..Len(b) : b[i] # 0 THEN Huge
              ELSE IF Len(b) >= 4 /\ b[4] >= 128 THEN Huge
              ELSE FoldSeq(LAMBDA i, acc : acc + b[i] * Pow256(i - 1), 0, [i \in 1..Min2(Len(b), 4) |-> i])
Le(x, n) == [i \in 1..n |-> IF i > 4 THEN 0 ELSE (x \div Pow256(i - 1)) % 256]

(* a key is given by its bytes; in the text, an array key ends at its first NUL *)
Upto0(t) == LET z == { i \in 1..Len(t) : t[i] = 0 } IN IF z = {} THEN t ELSE TakeN(t, Min(z) - 1)
SameKey(kt, x, y) == IF IsArr(kt) THEN Upto0(x) = Upto0(y) ELSE x = y
EncKey(kt, k) == IF IsArr(kt) THEN LET t == Upto0(k) IN t \o Rep(0, KeyW(kt) - Len(t)) ELSE k

(* The first entry with the key in a blob: [found, complete, size, at], at = the offset of its data.   *)
(* An entry counts as soon as its header is there; nothing that follows an incomplete entry counts.    *)
RECURSIVE FindFrom(_, _, _, _, _)
FindFrom(kt, st, blob, k, p) ==
  IF p + Head0(kt, st) > Len(blob) THEN [found |-> FALSE, complete |-> FALSE, size |-> 0, at |-> 0]
  ELSE LET key == SubSeq(blob, p + 1, p + KeyW(kt))
           size == Num(SubSeq(blob, p + KeyW(kt) + 1, p + Head0(kt, st)), st)
           at == p + Head0(kt, st)
           complete == size <= Len(blob) - at
       IN IF SameKey(kt, key, k) THEN [found |-> TRUE, complete |-> complete, size |-> size, at |-> at]
          ELSE IF complete THEN FindFrom(kt, st, blob, k, at + size)
          ELSE [found |-> FALSE, complete |-> FALSE, size |-> 0, at |-> 0]
Find(kt, st, blob, k) == FindFrom(kt, st, blob, k, 0)
Data(blob, f) == IF f.complete THEN SubSeq(blob, f.at + 1, f.at + f.size) ELSE <<>>
Types == {1, 2, 3, 4, 8}
TypeSeq == <<1, 2, 3, 4, 8>>
(* one attempt per value type: its bytes if the entry has exactly that size *)
Gets(d, ok) == FoldSeq(LAMBDA n, acc : acc \o (IF ok /\ Len(d) = n THEN <<1>> \o d ELSE <<0>>), <<>>, TypeSeq)
=============================================================================
