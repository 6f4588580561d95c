------------------------------- MODULE Parser -------------------------------
(* util/compact_binary_parser.hh on arbitrary bytes: total, inside the blob.   *)
EXTENDS CbFormat

(* c = <<key type, size type>> *)
Start(c) == [kt |-> c[1], st |-> c[2]]
(* q: key bytes, then the blob.  Result: size, node offset (-1: empty), node bytes, typed reads *)
Ask(s, a) ==
  LET k == TakeN(a, KeyW(s.kt))
      blob == DropN(a, KeyW(s.kt))
      f == Find(s.kt, s.st, blob, k)
      d == Data(blob, f)
      \* the size claimed by an incomplete entry may be reported or not
      sizes == IF f.found /\ f.complete THEN {f.size} ELSE {0, f.size}
  IN { [s |-> s, r |-> <<z, IF d = <<>> THEN -1 ELSE f.at, Len(d)>> \o d \o Gets(d, f.found /\ f.complete)] : z \in sizes }
(* qbig: key, then another key, m and the rest of the blob: it begins with an entry of m bytes with the other key. *)
(* One more typed read, of 300 bytes *)
AskBig(s, a) ==
  LET w == KeyW(s.kt)  k == TakeN(a, w)  m == a[2 * w + 1]  tail == DropN(a, 2 * w + 1)
      f == Find(s.kt, s.st, tail, k)
      d == Data(tail, f)
      sizes == IF f.found /\ f.complete THEN {f.size} ELSE {0, f.size}
  IN { [s |-> s, r |-> <<z, IF d = <<>> THEN -1 ELSE Head0(s.kt, s.st) + m + f.at, Len(d)>> \o d \o Gets(d, f.found /\ f.complete)
                       \o (IF f.found /\ f.complete /\ Len(d) = 300 THEN <<1>> \o d ELSE <<0>>)] : z \in sizes }
Step(s, op, a) == IF op = "qbig" THEN AskBig(s, a) ELSE Ask(s, a)

Blobs(al, n) == UNION { [1..k -> al] : k \in 0..n }
Menu(s) ==
  CASE s.kt = 0 /\ s.st = 1 -> { <<"q", <<1>> \o b>> : b \in Blobs({0, 1, 2}, 6) }
    [] s.kt = 0 /\ s.st = -1 -> { <<"q", <<1>> \o b>> : b \in Blobs({0, 1, 255}, 5) }
    [] s.kt = 1 /\ s.st = 2 -> { <<"q", <<1, 0>> \o b>> : b \in Blobs({0, 1}, 9) }
    [] s.kt = 3 /\ s.st = 1 -> { <<"q", <<97, 0, 7>> \o b>> : b \in Blobs({0, 1, 97}, 6) }
    [] s.kt = 2 /\ s.st = 2 -> { <<"q", <<97, 98, 0, 0, 97>> \o b>> : b \in Blobs({0, 1, 98}, 6) }
    [] s.kt = 0 /\ s.st = 8 -> { <<"q", <<1, 1>> \o <<x>> \o Rep(0, 6) \o <<y>> \o b>> : x \in {0, 1, 255}, y \in {0, 1, 255}, b \in Blobs({0, 1}, 3) }
                               \cup { <<"q", <<2, 1>> \o Rep(255, 7) \o <<y>> \o b>> : y \in {0, 127, 255}, b \in Blobs({0, 2}, 3) }
                               \cup { <<"q", <<2, 1>> \o <<x>> \o Rep(255, 7) \o b>> : x \in 240..255, b \in Blobs({0, 2}, 2) }
    [] s.kt = 4 /\ s.st = 2 -> { <<"q", <<1, 0, 0, 1, 1, 0, 0, 1>> \o b>> : b \in Blobs({0, 1}, 5) }
    [] OTHER -> {}
Configs == { <<0, 1>>, <<0, -1>>, <<1, 2>>, <<3, 1>>, <<2, 2>>, <<0, 8>>, <<4, 2>> }
BigConfigs == Configs
Inv(s) == TRUE
Safe(s, op, a, r, t) ==
  LET blob == DropN(a, KeyW(s.kt)) IN
  IF op # "q" THEN TRUE ELSE
  \* nothing, or a range of the blob preceded by the key and its exact size
  IF r[2] = -1 THEN TRUE ELSE (/\ r[2] + r[3] <= Len(blob)
                /\ SubSeq(blob, r[2] + 1, r[2] + r[3]) = SubSeq(r, 4, 3 + r[3])
                /\ Num(SubSeq(blob, r[2] - SzW(s.st) + 1, r[2]), s.st) = r[3]
                /\ SameKey(s.kt, SubSeq(blob, r[2] - Head0(s.kt, s.st) + 1, r[2] - SzW(s.st)), TakeN(a, KeyW(s.kt))))
=============================================================================
