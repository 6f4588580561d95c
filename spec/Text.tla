-------------------------------- MODULE Text --------------------------------
(* util/int_to_str.hh/.cc and util/print.hh.  A number is <<neg, hi, lo>> with   *)
(* magnitude hi * 100000 + lo; text is a sequence of character codes.            *)
EXTENDS Common

Start(c) == [n |-> 0]
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dig(n \div 10), 48 + (n % 10))
Pad5(t) == Rep(48, 5 - Len(t)) \o t
Mag(hi, lo) == IF hi = 0 THEN Dig(lo) ELSE Dig(hi) \o Pad5(Dig(lo))
Dec(q) == (IF q[1] = 1 THEN <<45>> ELSE <<>>) \o Mag(q[2], q[3])
Str(t) == <<Len(t)>> \o t
HexDig(x) == IF x < 10 THEN 48 + x ELSE 55 + x
(* nibbles, most significant first, without leading zeros *)
RECURSIVE Strip(_)
Strip(q) == IF Len(q) > 1 /\ q[1] = 0 THEN Strip(Tail(q)) ELSE q
HexText(q) == [i \in 1..Len(Strip(q)) |-> HexDig(Strip(q)[i])]
UpTo0(t) == LET z == { i \in 1..Len(t) : t[i] = 0 } IN IF z = {} THEN t ELSE TakeN(t, Min(z) - 1)

(* items: 0 neg hi lo | 1 n c.. (view) | 2 n c.. (C string) | 3 n n n n n n n n (hex nibbles) | 4 n c.. (unsigned C string) |
   5 neg hi lo (the float half a unit further from zero) *)
RECURSIVE PrintText(_)
PrintText(a) ==
  IF a = <<>> THEN <<>>
  ELSE CASE a[1] = 0 -> Dec(SubSeq(a, 2, 4)) \o PrintText(DropN(a, 4))
         [] a[1] = 1 -> SubSeq(a, 3, 2 + a[2]) \o PrintText(DropN(a, 2 + a[2]))
         [] a[1] \in {2, 4} -> UpTo0(SubSeq(a, 3, 2 + a[2])) \o PrintText(DropN(a, 2 + a[2]))
         \* a float: its integer part, between question marks
         [] a[1] = 5 -> LET q == SubSeq(a, 2, 4) IN <<63>> \o Dec(IF q[2] = 0 /\ q[3] = 0 THEN <<0, 0, 0>> ELSE q) \o <<63>> \o PrintText(DropN(a, 4))
         [] a[1] = 3 -> HexText(SubSeq(a, 2, 9)) \o PrintText(DropN(a, 9))

Step(s, op, a) ==
  CASE op = "i2s" ->      \* a = <<neg, hi, lo, buffer size>>
         LET t == Dec(a) IN Ok(s, IF Len(t) < a[4] THEN <<1>> \o Str(t) ELSE <<0>>)
    [] op = "chop" ->     \* as many last digits as fit after the sign and before the terminator
         LET t == Mag(a[2], a[3])
             room == a[4] - 1 - a[1]
             d == IF Len(t) <= room THEN t ELSE Slice(t, Len(t) - room + 1, Len(t))
         IN IF a[4] <= 1 THEN Ok(s, <<0>>) ELSE Ok(s, Str((IF a[1] = 1 THEN <<45>> ELSE <<>>) \o d))
    [] op = "numdig" -> Ok(s, <<Len(Mag(a[1], a[2]))>>)
    [] op = "print" -> Ok(s, Str(PrintText(a)))
    \* the items after the first a[2] numbers, printed while the a[1]-th character is being put
    [] op = "printin" -> LET t == PrintText(SubSeq(a, 3, 2 + a[2])) IN
         Ok(s, Str(t) \o Str(IF Len(t) < a[1] THEN <<>> ELSE PrintText(DropN(a, 2 + a[2]))))

(* values around every power of ten and at the ends of the type *)
Near == { <<0, 0, x>> : x \in {0, 1, 9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001, 99999} }
        \cup { <<0, h, l>> : h \in {1, 9, 10, 99, 100, 101, 999, 1000, 9999, 10000, 10100, 20000}, l \in {0, 1, 99999, 50000} }
        \cup { <<0, 21474, 83647>>, <<1, 21474, 83648>>, <<1, 21474, 83647>>, <<0, 10000, 0>>, <<0, 9999, 99999>> }
Nums == Near \cup { <<1, q[2], q[3]>> : q \in { x \in Near : <<x[2], x[3]>> # <<0, 0>> } }
Items == { <<0>> \o q : q \in { <<0, 0, 0>>, <<1, 0, 7>>, <<0, 1, 0>>, <<1, 21474, 83648>> } }
         \cup { <<1, 0>>, <<1, 2, 65, 66>>, <<1, 3, 65, 0, 66>>, <<2, 0>>, <<2, 3, 97, 0, 98>>, <<4, 1, 200>>, <<5, 1, 0, 0>>, <<5, 0, 9, 12345>>, <<3, 0, 0, 0, 0, 0, 0, 0, 0>>,
                <<3, 0, 0, 1, 0, 10, 15, 0, 9>>, <<3, 15, 15, 15, 15, 15, 15, 15, 15>> }
Menu(s) == { <<"i2s", Append(q, n)>> : q \in Nums, n \in 0..13 }
           \cup { <<"chop", Append(q, n)>> : q \in Nums, n \in 0..13 }
           \cup { <<"numdig", <<q[2], q[3]>> >> : q \in Nums } \cup { <<"numdig", <<42949, 67295>> >>, <<"numdig", <<40000, 0>> >> }
           \cup { <<"print", i>> : i \in Items } \cup { <<"print", i \o j>> : i, j \in Items }
           \cup { <<"printin", <<k, Len(i)>> \o i \o j>> : k \in {1, 2, 5}, i, j \in Items }
Configs == { <<0>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) ==
  /\ op = "i2s" => (r[1] = 0 \/ Len(r) <= a[4] + 1)
  /\ op = "chop" => r[1] <= Max2(0, a[4] - 1)
=============================================================================
