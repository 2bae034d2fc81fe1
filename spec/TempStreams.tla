----------------------------- MODULE TempStreams -----------------------------
(* Processes that keep temporary streams in one directory. Whatever the others *)
(* do, start, end or are killed, a stream of a running process keeps its bytes;*)
(* a process that ends leaves nothing behind.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs, MaxOps, MaxLive, Sim

VARIABLES proc,   \* what each process is doing
          live,   \* streams of running processes: [p, id, t], t tells the bytes
          dirs,   \* what lies in the directory: the process it belongs to
          next, hist
vars == <<proc, live, dirs, next, hist>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement({x \in S : next >= 0})} ELSE S
On == {p \in Procs : proc[p] = "on"}
Of(p) == {s \in live : s.p = p}
Log(o) == Len(hist) < MaxOps /\ hist' = Append(hist, o)

Init == proc = [p \in Procs |-> "off"] /\ live = {} /\ dirs = {} /\ next = 1 /\ hist = <<>>
Start(p) == /\ proc[p] = "off" /\ proc' = [proc EXCEPT ![p] = "on"]
            /\ Log([a |-> "start", p |-> p]) /\ UNCHANGED <<live, dirs, next>>
New(p) == /\ proc[p] = "on" /\ Cardinality(live) < MaxLive
          /\ live' = live \cup {[p |-> p, id |-> next, t |-> next]} /\ dirs' = dirs \cup {[p |-> p, id |-> next]} /\ next' = next + 1
          /\ Log([a |-> "new", p |-> p, id |-> next]) /\ UNCHANGED proc
Write(p) == \E s \in Pick(Of(p)) :
          /\ live' = (live \ {s}) \cup {[s EXCEPT !.t = next]} /\ next' = next + 1
          /\ Log([a |-> "write", p |-> p, id |-> s.id, t |-> next]) /\ UNCHANGED <<proc, dirs>>
Drop(p) == \E s \in Pick(Of(p)) :
          /\ live' = live \ {s}
          /\ Log([a |-> "drop", p |-> p, id |-> s.id]) /\ UNCHANGED <<proc, dirs, next>>
End(p) == /\ proc[p] = "on" /\ proc' = [proc EXCEPT ![p] = "off"]
          /\ live' = live \ Of(p) /\ dirs' = {d \in dirs : d.p # p}
          /\ Log([a |-> "end", p |-> p]) /\ UNCHANGED next
\* what a killed process leaves is nobody's
Kill(p) == /\ proc[p] = "on" /\ proc' = [proc EXCEPT ![p] = "off"]
           /\ live' = live \ Of(p) /\ dirs' = {IF d.p = p THEN [d EXCEPT !.p = 0] ELSE d : d \in dirs}
           /\ Log([a |-> "kill", p |-> p]) /\ UNCHANGED next
Next == \E p \in Procs : Start(p) \/ New(p) \/ Write(p) \/ Drop(p) \/ End(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars

\* every stream in use lies in the directory; processes that ended own nothing
Kept == \A s \in live : s.p \in On /\ [p |-> s.p, id |-> s.id] \in dirs
Clean == \A d \in dirs : d.p = 0 \/ d.p \in On
\* no process changes the streams of another
Apart == [][\A s \in live : s.p # hist'[Len(hist')].p => s \in live']_vars
Record == Len(hist) = MaxOps => PrintT(ToJson([hist |-> hist, left |-> Cardinality({d \in dirs : d.p = 0})]))
=============================================================================
