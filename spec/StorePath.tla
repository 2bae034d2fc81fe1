----------------------------- MODULE StorePath -----------------------------
(* A configuration storage: a tree of catalogues and files addressed by paths. *)
(* Kind tells what carries the tree: a directory, a container file, or the     *)
(* table of an information base (which is built first and then only read).     *)
(* node maps each existing path to a catalogue or to the bytes of a file.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Runs

CONSTANTS Kind, Names, Lens, Seps, MaxOps, MaxBuild, MaxDepth, Sim

VARIABLES node, hist, tag
vars == <<node, hist, tag>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : Len(hist) >= 0})} ELSE S
\* every path, existing or not, one level deeper than the tree may be
Paths == UNION {[1..d -> Names] : d \in 1..MaxDepth}
Deep == UNION {[1..d -> Names] : d \in 1..(MaxDepth + 1)}
Up(p) == {SubSeq(p, 1, i) : i \in 1..(Len(p) - 1)}
Is(p, k) == p \in DOMAIN node /\ node[p].k = k
Files == {p \in DOMAIN node : node[p].k = "file"}
\* a file stands where the path needs a catalogue
Blocked(p) == \E q \in Up(p) : Is(q, "file")
\* an empty member of a container can become a catalogue: left open
Vague(p) == \E q \in Up(p) : Is(q, "file") /\ RLen(node[q].r) = 0
Put(p, r) == [q \in DOMAIN node \cup Up(p) \cup {p} |->
                 IF q = p THEN [k |-> "file", r |-> r]
                 ELSE IF q \in DOMAIN node THEN node[q] ELSE [k |-> "cat", r |-> <<>>]]
Absent == [ok |-> FALSE, r |-> <<>>]

Init == node = [q \in {} |-> [k |-> "cat", r |-> <<>>]] /\ hist = <<>> /\ tag = 1
More == Len(hist) < MaxOps
Building == Kind # "table" \/ Len(hist) < MaxBuild
Reading == Kind # "table" \/ Len(hist) >= MaxBuild
Log(x) == hist' = Append(hist, x)

Write == /\ More /\ Building
         /\ \E p \in Pick(Paths) : \E n \in Pick(Lens) : \E s \in Pick(Seps) :
              /\ ~Is(p, "cat") /\ ~Vague(p)
              /\ (Kind = "table" => ~Blocked(p))
              /\ LET r == RCat(<<>>, <<Run(tag, 0, n)>>) IN
                 /\ node' = (IF Blocked(p) THEN node ELSE Put(p, r))
                 /\ Log([a |-> "W", p |-> p, s |-> s, t |-> tag, n |-> n, ok |-> ~Blocked(p)])
         /\ tag' = tag + 1
\* names are looked up without regard to case in containers (u: the path in the other case)
Read == /\ More /\ Reading
        /\ \E p \in Pick(Deep) : \E s \in Pick(Seps) : \E u \in Pick(IF Kind = "dir" THEN {FALSE} ELSE BOOLEAN) :
             /\ ~Is(p, "cat") \/ Kind = "dir"
             /\ ~Vague(p)
             /\ Log([a |-> "R", p |-> p, s |-> s, u |-> u, ok |-> Is(p, "file"), r |-> IF Is(p, "file") THEN node[p].r ELSE <<>>])
        /\ UNCHANGED <<node, tag>>
Exists == /\ More /\ Reading
          /\ \E p \in Pick(Deep) : \E s \in Pick(Seps) : \E u \in Pick(IF Kind = "dir" THEN {FALSE} ELSE BOOLEAN) :
               Log([a |-> "E", p |-> p, s |-> s, u |-> u, ok |-> p \in DOMAIN node])
          /\ UNCHANGED <<node, tag>>
\* two files open at the same time
Both == /\ More /\ Reading /\ Cardinality(Files) > 1
        /\ \E p \in Pick(Files) : \E q \in Pick(Files \ {p}) :
             Log([a |-> "B", p |-> p, q |-> q, s |-> "/", ok |-> TRUE, r |-> node[p].r, r2 |-> node[q].r])
        /\ UNCHANGED <<node, tag>>
Reopen == /\ More /\ Kind = "cf" /\ Log([a |-> "O"]) /\ UNCHANGED <<node, tag>>
Rest == /\ More /\ Sim /\ Log([a |-> "-"]) /\ UNCHANGED <<node, tag>>
Next == Rest \/ Write \/ Read \/ Exists \/ Both \/ Reopen
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Tree == \A p \in DOMAIN node : \A q \in Up(p) : Is(q, "cat")
\* a call addresses one file: every other file keeps its bytes
OthersKept == [][\A p \in Files : (p \in DOMAIN node' /\ node'[p] # node[p]) =>
                    (LET h == hist'[Len(hist')] IN h.a = "W" /\ h.p = p)]_vars
NothingLost == [][DOMAIN node \subseteq DOMAIN node']_vars
\* what is written is what is read next
Readback == \A i \in 1..(Len(hist) - 1) :
              (hist[i].a = "W" /\ hist[i].ok /\ hist[i + 1].a = "R" /\ hist[i + 1].p = hist[i].p)
              => (hist[i + 1].ok /\ hist[i + 1].r = RCat(<<>>, <<Run(hist[i].t, 0, hist[i].n)>>))
Record == Len(hist) = MaxOps =>
            PrintT(ToJson([h |-> hist, c |-> {[p |-> q, r |-> node[q].r] : q \in Files}]))
=============================================================================
