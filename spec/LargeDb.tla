------------------------------ MODULE LargeDb ------------------------------
(* Databases whose tables, stores of long values, indexes or the file itself   *)
(* are longer than 4 GB. Space is counted in units (some KB) and store blocks,  *)
(* so that every number of the model is small while the byte positions they     *)
(* stand for do not fit 32 bits. Records and blocks are put where their byte    *)
(* positions agree in the low 32 bits with other records and blocks.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS RecUnits,    \* units in a record
          WrapUnits,   \* units in 2^32 bytes
          Slots,       \* possible numbers of record slots
          Points,      \* slots that may be filled
          Chains,      \* possible chains of store blocks
          StoreLens,   \* possible lengths of the store, in blocks
          Leaves,      \* possible sequences of index leaf pages
          Roots,       \* possible index root pages
          Heads,       \* possible pages where the index starts
          Gaps,        \* pages left out in the file before the first data page
          MaxRecs, Sim, Emit
VARIABLES slots, mem, rows, store, blocks, leaves, root, head, gap, steps
vars == <<slots, mem, rows, store, blocks, leaves, root, head, gap, steps>>
Pick(S) == IF Sim /\ S # {} THEN {RandomElement({x \in S : steps >= 0})} ELSE S
Pos(s) == s * RecUnits
Space(s) == Pos(s) .. (Pos(s) + RecUnits - 1)
None == [i \in {} |-> 0]

Init == /\ steps = 0 /\ mem = None /\ blocks = None /\ rows = <<>>
        /\ slots = 0 /\ store = 0 /\ gap = 0 /\ leaves = <<>> /\ head = 0 /\ root = 0
\* the lengths of everything and the places of the index pages are chosen first
Lay == /\ steps = 0 /\ steps' = 1
       /\ slots' \in Pick(Slots) /\ store' \in Pick(StoreLens) /\ gap' \in Pick(Gaps)
       /\ leaves' \in Pick(Leaves)
       /\ head' \in Pick({h \in Heads : \A i \in DOMAIN leaves' : leaves'[i] # h})
       /\ root' \in Pick({r \in Roots : /\ r # head'
                                       /\ IF Len(leaves') = 1 THEN r = leaves'[1] ELSE \A i \in DOMAIN leaves' : leaves'[i] # r})
       /\ UNCHANGED <<mem, blocks, rows>>

\* the record of a slot is written unit by unit, its long value block by block
Insert(s, c) ==
  /\ Len(rows) < MaxRecs /\ s < slots
  /\ \A i \in DOMAIN rows : rows[i].slot # s
  /\ \A i \in DOMAIN c : c[i] < store /\ c[i] \notin DOMAIN blocks
  /\ LET tag == Len(rows) + 1 IN
     /\ mem' = [u \in DOMAIN mem \cup Space(s) |-> IF u \in Space(s) THEN [tag |-> tag, part |-> u - Pos(s)] ELSE mem[u]]
     /\ blocks' = [b \in DOMAIN blocks \cup {c[i] : i \in DOMAIN c} |->
                     IF b \in DOMAIN blocks THEN blocks[b]
                     ELSE LET i == CHOOSE j \in DOMAIN c : c[j] = b IN [tag |-> tag, part |-> i, next |-> IF i < Len(c) THEN c[i + 1] ELSE 0]]
     /\ rows' = Append(rows, [slot |-> s, live |-> TRUE, chain |-> c])
\* a removed record stays where it was, marked
Remove(i) == rows[i].live /\ rows' = [rows EXCEPT ![i].live = FALSE] /\ UNCHANGED <<mem, blocks>>

Write == /\ steps > 0 /\ steps' = (IF Sim THEN steps + 1 ELSE 1)
        /\ \/ \E s \in Pick(Points), c \in Pick(Chains) : Insert(s, c)
           \/ \E i \in Pick(DOMAIN rows) : Remove(i)
        /\ UNCHANGED <<slots, store, leaves, root, head, gap>>
Next == Lay \/ Write
Rest == Sim /\ steps > 0 /\ steps' = steps + 1 /\ UNCHANGED <<slots, mem, rows, store, blocks, leaves, root, head, gap>>
Spec == Init /\ [][Next \/ Rest]_vars

\* ------------------------------------------------------------------ what a reader finds
Read(s) == [i \in 0..(RecUnits - 1) |-> IF (Pos(s) + i) \in DOMAIN mem THEN mem[Pos(s) + i] ELSE [tag |-> 0, part |-> 0]]
Alive(s) == LET r == Read(s)[0] IN r.tag # 0 /\ r.part = 0 /\ rows[r.tag].live
RECURSIVE Follow(_)
Follow(b) == IF b = 0 THEN <<>> ELSE <<[tag |-> blocks[b].tag, part |-> blocks[b].part]>> \o Follow(blocks[b].next)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
Walk == Ascending({s \in Points : s < slots /\ Alive(s)})
\* the index orders records by tag
Tags == {i \in DOMAIN rows : rows[i].live}
ByKey == LET t == Ascending(Tags) IN [i \in DOMAIN t |-> rows[t[i]].slot]

\* ------------------------------------------------------------------ properties
WholeRecords == \A i \in DOMAIN rows : \A k \in 0..(RecUnits - 1) : Read(rows[i].slot)[k] = [tag |-> i, part |-> k]
WholeValues == \A i \in DOMAIN rows : LET c == rows[i].chain IN
                 Follow(IF c = <<>> THEN 0 ELSE c[1]) = [k \in DOMAIN c |-> [tag |-> i, part |-> k]]
InsideTable == \A u \in DOMAIN mem : u < slots * RecUnits
SameRecords == /\ {Walk[i] : i \in DOMAIN Walk} = {rows[i].slot : i \in Tags} /\ {ByKey[i] : i \in DOMAIN ByKey} = {rows[i].slot : i \in Tags}
               /\ Len(Walk) = Cardinality(Tags) /\ Len(ByKey) = Cardinality(Tags)
\* positions cut to 32 bits would find something else (used to see that the cases are telling)
Decoys == {i \in Tags : /\ Pos(rows[i].slot) >= WrapUnits
                        /\ \E j \in DOMAIN rows : j # i /\ Pos(rows[j].slot) = Pos(rows[i].slot) - WrapUnits}
Out == ToJson([slots |-> slots, rows |-> rows, store |-> store, leaves |-> leaves, root |-> root, head |-> head, gap |-> gap,
               walk |-> Walk, bykey |-> ByKey, units |-> slots * RecUnits, decoys |-> Cardinality(Decoys)])
Emitted == Emit => (Len(rows) > 0 => PrintT(Out))
=============================================================================
