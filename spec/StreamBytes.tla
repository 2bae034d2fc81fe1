----------------------------- MODULE StreamBytes -----------------------------
(* Two streams, each a byte array with a position. Every operation records     *)
(* what it returns. Positions outside a stream are refused and leave it as it  *)
(* was. Closing a file stream does not change it: it is opened again by use.   *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxOps, Lens, Fill, Initial, Ops, Emit

VARIABLES st,        \* st[i] = [b: bytes, p: position]
          ini,       \* what st was at the start
          hist
vars == <<st, ini, hist>>

N(i) == Len(st[i].b)
Rest(i) == N(i) - st[i].p
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [k \in 1..n |-> 0]
Slice(b, from, n) == SubSeq(b, from + 1, from + n)
\* overwrites or appends; the position never lies beyond the end
Put(s, d) == [b |-> Slice(s.b, 0, s.p) \o d \o SubSeq(s.b, s.p + Len(d) + 1, Len(s.b)), p |-> s.p + Len(d)]
Data(n, seed) == [k \in 1..n |-> 1 + ((seed + k) % Fill)]
Log(o) == hist' = Append(hist, o)
Op(o) == o \in Ops /\ Len(hist) < MaxOps

Read(i, n, kind) == /\ Op("read")
   /\ LET want == IF kind = "vector" /\ n = 0 THEN N(i) ELSE n
          got == Least(want, Rest(i)) IN
        /\ st' = [st EXCEPT ![i].p = @ + got]
        /\ Log([op |-> "read", i |-> i, n |-> n, kind |-> kind, res |-> Slice(st[i].b, st[i].p, got)])
Write(i, n, kind) == /\ Op("write")
   /\ LET d == Data(n, 3 * Len(hist)) IN
        /\ st' = [st EXCEPT ![i] = Put(@, d)]
        /\ Log([op |-> "write", i |-> i, n |-> n, kind |-> kind, d |-> d, res |-> n])
Seek(i, off, origin) == /\ Op("seek")
   /\ LET to == CASE origin = "start" -> off [] origin = "set" -> off [] origin = "current" -> st[i].p + off [] origin = "end" -> N(i) - off
          ok == IF origin = "end" THEN off >= 0 /\ to >= 0 ELSE to >= 0 /\ to <= N(i) IN
        /\ st' = IF ok THEN [st EXCEPT ![i].p = to] ELSE st
        /\ Log([op |-> "seek", i |-> i, off |-> off, origin |-> origin, res |-> IF ok THEN to ELSE -1])
SetSize(i, n) == /\ Op("size")
   /\ st' = [st EXCEPT ![i] = [b |-> Slice(@.b, 0, Least(n, Len(@.b))) \o Zeros(Most(0, n - Len(@.b))), p |-> Least(@.p, n)]]
   /\ Log([op |-> "size", i |-> i, n |-> n])
Copy(i, j, n) == /\ Op("copy") /\ i # j
   /\ LET from == IF n = 0 THEN 0 ELSE st[j].p
          got == IF n = 0 THEN N(j) ELSE Least(n, Rest(j)) IN
        /\ st' = [st EXCEPT ![i] = Put(@, Slice(st[j].b, from, got)), ![j].p = from + got]
        /\ Log([op |-> "copy", i |-> i, n |-> n, res |-> got])
Close(i) == /\ Op("close") /\ UNCHANGED st /\ Log([op |-> "close", i |-> i])

Init == /\ st \in [1..2 -> {[b |-> Data(n, 7), p |-> 0] : n \in Initial}]
        /\ ini = st /\ hist = <<>>
Next == UNCHANGED ini /\ \E i \in 1..2 :
   \/ \E n \in Lens : \E k \in {"plain", "vector", "buffer"} : Read(i, n, k)
   \/ \E n \in Lens : \E k \in {"plain", "vector", "whole", "buffer", "string"} : Write(i, n, k)
   \/ \E o \in Lens \cup {-x : x \in Lens} : \E g \in {"start", "current", "end", "set"} : Seek(i, o, g)
   \/ \E n \in Lens : SetSize(i, n)
   \/ \E n \in Lens : Copy(i, 3 - i, n)
   \/ Close(i)
Spec == Init /\ [][Next]_vars

Inside == \A i \in 1..2 : st[i].p >= 0 /\ st[i].p <= N(i)
\* reading, seeking and closing change no byte; nothing changes the other stream's bytes
Frame == [][LET h == hist'[Len(hist')] IN /\ (h.op \in {"read", "seek", "close"} => \A i \in 1..2 : st'[i].b = st[i].b)
                                          /\ st'[3 - h.i].b = st[3 - h.i].b
                                          /\ (h.op = "seek" /\ h.res = -1 => st' = st)]_vars
Record == (Emit /\ Len(hist) = MaxOps) => PrintT(ToJson([init |-> <<ini[1].b, ini[2].b>>, hist |-> hist, b1 |-> st[1].b, b2 |-> st[2].b, p1 |-> st[1].p, p2 |-> st[2].p]))
=============================================================================
