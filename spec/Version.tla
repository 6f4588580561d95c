------------------------------ MODULE Version ------------------------------
(* util/version_tools.hh.  A version is <<major, minor, revision, normal>>,    *)
(* normal = 0 for a pre-release.  Text is a sequence of character codes.        *)
EXTENDS Common

Start(c) == [n |-> 0]
Dot == 46
Dash == 45
Space(ch) == ch = 32 \/ ch \in 9..13
Digit(ch) == ch \in 48..57
RECURSIVE Split(_, _)
Split(t, cur) == IF t = <<>> THEN <<cur>> ELSE IF t[1] = Dot THEN <<cur>> \o Split(Tail(t), <<>>) ELSE Split(Tail(t), Append(cur, t[1]))
RECURSIVE Skip(_)
Skip(t) == IF t # <<>> /\ Space(t[1]) THEN Skip(Tail(t)) ELSE t
Plus(t) == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
RECURSIVE Value(_, _)
(* the leading number of a component; 256 for everything above 255 *)
Value(t, v) == IF t = <<>> \/ ~Digit(t[1]) THEN v ELSE IF v * 10 + t[1] - 48 > 255 THEN 256 ELSE Value(Tail(t), v * 10 + t[1] - 48)
Field(c) == LET v == Value(Plus(Skip(c)), 0) IN IF v > 255 THEN 0 ELSE v
Parse(t) == LET p == Split(t, <<>>)
                F(i) == IF i <= Len(p) THEN Field(p[i]) ELSE 0
            IN <<F(1), F(2), F(3), B2I(\A i \in 1..Len(Last1(p)) : Last1(p)[i] # Dash)>>
(* lexicographic: a pre-release comes before its release *)
RECURSIVE LexLess(_, _)
LexLess(x, y) == IF x = <<>> THEN FALSE ELSE x[1] < y[1] \/ (x[1] = y[1] /\ LexLess(Tail(x), Tail(y)))
CanHost(x, y) == x[1] = y[1] /\ x[2] >= y[2]
Cmp(x, y) == <<B2I(LexLess(x, y)), B2I(LexLess(y, x)), B2I(x = y), B2I(x # y), B2I(~LexLess(y, x)), B2I(~LexLess(x, y)),
               B2I(LexLess(y, x)), B2I(CanHost(x, y))>>
Small == { <<a, b, c, n>> : a, b, c \in 0..2, n \in 0..1 }
ASSUME \A x, y \in Small : (IF LexLess(x, y) THEN 1 ELSE 0) + (IF LexLess(y, x) THEN 1 ELSE 0) + (IF x = y THEN 1 ELSE 0) = 1
ASSUME \A x, y, z \in { v \in Small : v[2] < 2 } : LexLess(x, y) /\ LexLess(y, z) => LexLess(x, z)

Step(s, op, a) ==
  CASE op = "parse" -> Ok(s, Parse(a))
    \* one component replaced, if there is such a one and the value fits
    [] op = "set" -> Ok(s, [i \in 1..3 |-> IF a[4] = i - 1 /\ a[5] <= 255 THEN a[5] ELSE a[i]] \o <<1>>)
    \* two texts, the first of a[1] characters; or two constructed versions
    [] op = "cmp" -> LET x == Parse(SubSeq(a, 2, 1 + a[1]))  y == Parse(DropN(a, 1 + a[1])) IN Ok(s, x \o y \o Cmp(x, y))
    [] op = "cmpn" -> LET x == TakeN(a, 3) \o <<1>>  y == DropN(a, 3) \o <<1>> IN Ok(s, x \o y \o Cmp(x, y))

Seqs(al, n) == UNION { [1..k -> al] : k \in 0..n }
D(n) == <<48 + n>>
Short == { D(1), D(2), D(1) \o <<Dot>> \o D(2), D(1) \o <<Dot>> \o D(0), D(1) \o <<Dot>> \o D(2) \o <<Dot>> \o D(3),
           D(1) \o <<Dot>> \o D(2) \o <<Dot>> \o D(3) \o <<Dash, 97>>, D(1) \o <<Dot>> \o D(2) \o <<Dot>> \o D(4) \o <<Dash, 97>>,
           D(2) \o <<Dash>>, <<>>, <<Dot, Dot, 49>>, D(1) \o <<Dot>> \o D(2) \o <<Dot>> \o D(0) \o <<Dash>>, D(2) \o <<Dot>> \o D(0) \o <<Dot>> \o D(1),
           <<50, 53, 53>>, <<50, 53, 54>>, D(1) \o <<Dot, 50, 53, 53, Dot, 50, 53, 53>> }
Menu(s) == { <<"parse", t>> : t \in Seqs({49, 57, Dot, Dash, 32}, 5) \cup Seqs({50, 53, 54, Dot}, 5) \cup Seqs({43, 49, Dot, Dash}, 4) \cup Seqs({48, 9, 97, Dot}, 4) }
           \cup { <<"parse", <<x, 49, Dot, x, 50>> >> : x \in 0..255 }
           \cup { <<"set", <<1, 2, 3, i, v>> >> : i \in 0..3, v \in {0, 7, 255, 256, 263} }
           \cup { <<"cmp", <<Len(x)>> \o x \o y>> : x, y \in Short }
           \cup { <<"cmpn", <<x[1], x[2], x[3], y[1], y[2], y[3]>> >> : x, y \in { v \in Small : v[4] = 1 } }
Configs == { <<0>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) ==
  /\ op \in {"cmp", "cmpn"} => (r[9] + r[10] + r[11] = 1) /\ (r[12] = 1 - r[11]) /\ (r[13] = 1 - r[10]) /\ (r[14] = 1 - r[9]) /\ (r[15] = r[10])
=============================================================================
