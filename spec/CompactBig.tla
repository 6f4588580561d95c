----------------------------- MODULE CompactBig -----------------------------
(* The same writer, serializer and parser as Compact.tla on documents of any    *)
(* size: the encoding is a sequence of segments, a header (key and size) and n   *)
(* bytes of data made from v.  A segment that opens an object has no data of its  *)
(* own; e is the last segment of the object (0: not closed).  Observations look   *)
(* at windows of the bytes.                                                       *)
EXTENDS CbFormat

(* c = <<key type, size bytes, buffer capacity, deepest level, bound on the exploration>> *)
Start(c) == [kt |-> c[1], st |-> c[2], cap |-> c[3], deep |-> c[4], lim |-> c[5], segs |-> <<>>, open |-> <<>>]
PatAt(v, i) == (v + 37 * (i % 256)) % 256
SegLen(g) == Len(g.h) + g.n
SegByte(g, i) == IF i < Len(g.h) THEN g.h[i + 1] ELSE PatAt(g.v, i - Len(g.h))
RECURSIVE SumLen(_, _, _)
SumLen(segs, i, j) == IF i > j THEN 0 ELSE SegLen(segs[i]) + SumLen(segs, i + 1, j)
Total(s) == SumLen(s.segs, 1, Len(s.segs))
RECURSIVE ByteFrom(_, _, _)
ByteFrom(segs, i, p) == IF p < SegLen(segs[i]) THEN SegByte(segs[i], p) ELSE ByteFrom(segs, i + 1, p - SegLen(segs[i]))
(* the bytes p..p+m-1 of the encoding, as far as they exist *)
Window(s, p, m) == [j \in 1..Max2(0, Min2(m, Total(s) - p)) |-> ByteFrom(s.segs, 1, p + j - 1)]
(* the same bytes in the buffer, which had 238 everywhere *)
BufWindow(s, p, m) == LET n == Max2(0, Min2(m, s.cap - p)) w == TakeN(Window(s, p, m), n) IN w \o Rep(238, n - Len(w))

Seg(s, k, size, n, v, o) == [h |-> EncKey(s.kt, k) \o Le(size, s.st), k |-> k, n |-> n, v |-> v, o |-> o, e |-> 0]
K(s, a) == TakeN(a, KeyW(s.kt))
Rest(s, a) == DropN(a, KeyW(s.kt))
Res(t, r) == { [s |-> t, r |-> <<Total(t)>> \o r] }

(* first segment between i and j of an entry with the key, at one level; 0: none *)
RECURSIVE FindSeg(_, _, _, _)
FindSeg(s, i, j, k) == IF i > j THEN 0 ELSE IF SameKey(s.kt, s.segs[i].k, k) THEN i
                       ELSE FindSeg(s, IF s.segs[i].o THEN s.segs[i].e + 1 ELSE i + 1, j, k)
RECURSIVE LookPath(_, _, _, _)
LookPath(s, i, j, path) ==
  LET f == FindSeg(s, i, j, Head(path)) IN
  IF Len(path) = 1 THEN f ELSE IF f = 0 \/ ~s.segs[f].o THEN 0 ELSE LookPath(s, f + 1, s.segs[f].e, Tail(path))
NodeAt(s, f) == SumLen(s.segs, 1, f - 1) + Len(s.segs[f].h)
NodeLen(s, f) == IF s.segs[f].o THEN SumLen(s.segs, f + 1, s.segs[f].e) ELSE s.segs[f].n
Path(s, b) == [i \in 1..(Len(b) \div KeyW(s.kt)) |-> SubSeq(b, (i - 1) * KeyW(s.kt) + 1, i * KeyW(s.kt))]

Step(s, op, a) ==
  CASE op \in {"field", "raw"} -> LET x == Rest(s, a) IN Res([s EXCEPT !.segs = Append(@, Seg(s, K(s, a), x[1], x[1], x[2], FALSE))], <<>>)
    [] op = "begin" -> Res([s EXCEPT !.segs = Append(@, Seg(s, a, 0, 0, 0, TRUE)), !.open = Append(@, Len(s.segs) + 1)], <<>>)
    [] op = "end" -> IF s.open = <<>> THEN Res(s, <<>>)
         ELSE LET f == Last1(s.open)
                  d == SumLen(s.segs, f + 1, Len(s.segs))
              IN Res([s EXCEPT !.segs[f].e = Len(s.segs), !.segs[f].h = EncKey(s.kt, s.segs[f].k) \o Le(d, s.st), !.open = Front(@)], <<>>)
    [] op = "at" -> Res(s, BufWindow(s, a[1], a[2]))
    \* measure; serialize (size, buffer); stream (size, bytes)
    [] op = "others_at" -> Res(s, <<Total(s), Total(s)>> \o BufWindow(s, a[1], a[2]) \o <<Total(s)>> \o Window(s, a[1], a[2]))
    \* place (-1: nothing there), length and a window of the node a path of keys leads to
    [] op = "lookup_at" -> LET f == LookPath(s, 1, Len(s.segs), Path(s, DropN(a, 2))) IN
         IF f = 0 \/ NodeLen(s, f) = 0 THEN Res(s, <<-1, 0>> \o Gets(<<>>, FALSE))
         ELSE Res(s, <<NodeAt(s, f), NodeLen(s, f)>> \o Window(s, NodeAt(s, f) + a[1], Max2(0, Min2(a[2], NodeLen(s, f) - a[1])))
                     \o (IF NodeLen(s, f) <= 8 THEN Gets(Window(s, NodeAt(s, f), NodeLen(s, f)), TRUE) ELSE Gets(<<>>, FALSE)))

KeysOf(kt) == CASE kt = 1 -> { <<1, 0>>, <<1, 1>> } [] kt = 2 -> { <<97, 200, 0, 0>>, <<97, 98, 99, 255>> } [] kt = 0 -> {<<1>>, <<2>>}
Spots(s) == { SumLen(s.segs, 1, i) : i \in 0..Len(s.segs) }
Menu(s) ==
  (IF Len(s.segs) >= s.lim THEN {} ELSE
    { <<"raw", k \o <<n, 7>> >> : k \in KeysOf(s.kt), n \in {0, 40000} } \cup { <<"field", k \o <<4, 9>> >> : k \in KeysOf(s.kt) }
    \cup (IF Len(s.open) >= s.deep \/ s.st < 4 THEN {} ELSE { <<"begin", k>> : k \in KeysOf(s.kt) }))
  \cup { <<"end", <<>> >> } \cup { <<"at", <<Max2(0, p - 3), 9>> >> : p \in Spots(s) }
  \cup (IF s.open # <<>> THEN {} ELSE { <<"others_at", <<Max2(0, p - 3), 9>> >> : p \in Spots(s) }
          \cup { <<"lookup_at", <<p, 8>> \o k>> : k \in KeysOf(s.kt), p \in {0, 39995} } \cup { <<"lookup_at", <<0, 8>> \o j \o k>> : j, k \in KeysOf(s.kt) })
Configs == { <<1, 2, 90000, 3, 3>>, <<2, 4, 120100, 12, 3>>, <<0, 4, 70000, 1, 3>> }
BigConfigs == { <<1, 2, 90000, 3, 4>>, <<2, 4, 120100, 12, 4>>, <<0, 4, 70000, 2, 4>> }
Inv(s) == \A i \in 1..Len(s.open) : s.segs[s.open[i]].o /\ s.segs[s.open[i]].e = 0
Safe(s, op, a, r, t) ==
  /\ op = "lookup_at" /\ r[2] # -1 =>
       /\ r[2] + r[3] <= Total(s)
       \* the bytes before the node are its exact size
       /\ Num(Window(s, r[2] - SzW(s.st), SzW(s.st)), s.st) = r[3]
  /\ op \in {"field", "raw", "begin"} => Total(t) > Total(s)
  /\ op = "end" => Total(t) = Total(s)
=============================================================================
