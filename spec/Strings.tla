------------------------------ MODULE Strings ------------------------------
(* util/string_util.hh, util/contains_word.hh, util/string_compare.hh.  Texts   *)
(* are sequences of character codes; an argument list carries several texts,    *)
(* each preceded by its length.                                                 *)
EXTENDS Common

Start(c) == [n |-> 0]
T(a, k) ==       \* the k-th text of an argument list
  LET RECURSIVE At(_, _)
      At(p, i) == IF i = k THEN SubSeq(a, p + 1, p + a[p]) ELSE At(p + 1 + a[p], i + 1)
  IN At(1, 1)
Pack(t) == <<Len(t)>> \o t
HasAt(t, w, p) == p + Len(w) <= Len(t) /\ SubSeq(t, p + 1, p + Len(w)) = w
RECURSIVE Replace(_, _, _)
(* left to right; the text put in is not looked at again *)
Replace(t, w, v) == IF t = <<>> THEN <<>>
                    ELSE IF HasAt(t, w, 0) THEN v \o Replace(DropN(t, Len(w)), w, v)
                    ELSE <<t[1]>> \o Replace(Tail(t), w, v)
Replaced(t, w, v) == IF w = <<>> THEN t ELSE Replace(t, w, v)
RECURSIVE Split(_, _, _)
Split(t, seps, cur) == IF t = <<>> THEN <<cur>>
                       ELSE IF t[1] \in seps THEN <<cur>> \o Split(Tail(t), seps, <<>>) ELSE Split(Tail(t), seps, Append(cur, t[1]))
(* tokens: the non-empty pieces *)
Tokens(t, seps) == SelectSeq(Split(t, seps, <<>>), LAMBDA x : x # <<>>)
Lower1(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(t) == [i \in 1..Len(t) |-> Lower1(t[i])]
HasText(t, w) == \E p \in 0..Len(t) : HasAt(t, w, p)
RECURSIVE Less(_, _)
Less(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Less(Tail(x), Tail(y))
Flat(q) == FoldSeq(LAMBDA x, y : y \o Pack(x), <<>>, q)

Step(s, op, a) ==
  CASE op = "replace" -> Ok(s, Pack(Replaced(T(a, 1), T(a, 2), T(a, 3))))
    [] op = "replaces" -> Ok(s, Pack(Replaced(Replaced(T(a, 1), T(a, 2), T(a, 3)), T(a, 4), T(a, 5))))
    [] op = "replace_own" -> Ok(s, Pack(Replaced(T(a, 1), T(a, 2), T(a, 1))) \o Pack(Replaced(T(a, 1), T(a, 1), T(a, 2))))
    \* added to the n there are already
    [] op = "tokens" -> LET t == Tokens(T(a, 1), { T(a, 2)[i] : i \in 1..Len(T(a, 2)) }) IN Ok(s, <<Last1(a) + Len(t)>> \o Flat(Rep(<<122, 122>>, Last1(a)) \o t))
    [] op = "word" -> Ok(s, <<B2I(HasText(Lower(<<32>> \o T(a, 1) \o <<32>>), Lower(<<32>> \o T(a, 2) \o <<32>>)))>>)
    [] op = "cmp" -> LET x == Lower(T(a, 1))  y == Lower(T(a, 2)) IN Ok(s, <<B2I(Less(x, y)), B2I(Less(y, x)), B2I(x = y), B2I(x = y)>>)

Seqs(al, n) == UNION { [1..k -> al] : k \in 0..n }
AB == {97, 98}
Menu(s) ==
  { <<"replace", Pack(t) \o Pack(w) \o Pack(v)>> : t \in Seqs(AB, 4), w \in Seqs(AB, 2), v \in { <<>>, <<97>>, <<97, 97>>, <<98, 97, 98>> } }
  \cup { <<"replace_own", Pack(t) \o Pack(w)>> : t \in Seqs(AB, 4), w \in Seqs(AB, 2) }
  \cup { <<"tokens", Pack(t) \o Pack(d) \o <<n>> >> : n \in {0, 2}, t \in Seqs({97, 44, 59}, 5), d \in { <<44>>, <<44, 59>>, <<>> } }
  \cup { <<"word", Pack(t) \o Pack(w)>> : t \in Seqs({97, 66, 32}, 5), w \in { <<97>>, <<65, 98>>, <<>>, <<98>>, <<97, 32, 98>> } }
  \cup { <<"cmp", Pack(x) \o Pack(y)>> : x, y \in Seqs({65, 97, 66, 95}, 2) }
  \* every character against its neighbours and those that differ from it in one bit
  \cup { <<"cmp", <<1, x, 1, (x + d) % 256>> >> : x \in 0..255, d \in {0, 1, 2, 4, 8, 16, 32, 64, 128, 224} }
Configs == { <<0>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) == op = "cmp" => r[1] + r[2] + r[3] = 1 /\ r[3] = r[4]
=============================================================================
