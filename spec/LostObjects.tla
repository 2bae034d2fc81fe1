---------------------------- MODULE LostObjects ----------------------------
(* The pages of a database file through its life.  An object has a head page   *)
(* and pages of contents; tables refer to objects; pages of dropped objects    *)
(* are free and keep their bytes until they are used again.  A page looks like *)
(* a head when its bytes do, whatever it is used for.  Lost are the objects    *)
(* nobody refers to any more.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Old,       \* free pages are listed and one page of contents numbers stands before the contents
          Sizes,     \* pages of contents an object can have
          Looks,     \* what a page of contents begins with: "plain", "head" (a head of some object), "bad" (a damaged head)
          MaxObjs, MaxOps, Sim

VARIABLES objs,   \* object -> [head, tabs, data (sequence of pages), look, live]
          free,   \* sequence of free pages
          stale,  \* free pages that still look like a head
          leak,   \* pages that belong to nobody and look like a damaged head
          last,   \* the last page of the file
          ops
vars == <<objs, free, stale, leak, last, ops>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : ops >= 0})} ELSE S
Range(q) == {q[i] : i \in 1..Len(q)}
First == 3          \* the pages before carry the header, the free list and the list of tables
Pages(o) == {objs[o].head} \cup Range(objs[o].tabs) \cup Range(objs[o].data)
Ids == DOMAIN objs
Init == objs = [o \in {} |-> 0] /\ free = <<>> /\ stale = {} /\ leak = {} /\ last = First - 1 /\ ops = 0
More == ops < MaxOps /\ ops' = ops + 1
\* n pages: the free ones first (from the end of the list, as they were freed last) when wanted, then new ones
Take(n, reuse) == LET k == IF reuse THEN (IF n <= Len(free) THEN n ELSE Len(free)) ELSE 0
                  IN [pages |-> [i \in 1..n |-> IF i <= k THEN free[Len(free) + 1 - i] ELSE last + i - k],
                      free |-> SubSeq(free, 1, Len(free) - k), last |-> last + n - k]
New == /\ More /\ Cardinality(Ids) < MaxObjs
       /\ \E n \in Pick(Sizes) : \E l \in Pick(Looks) : \E reuse \in Pick(BOOLEAN) : \E turn \in Pick(BOOLEAN) :
            /\ (l # "plain" => n > 0)
            /\ LET nt == IF Old THEN (IF n > 0 THEN 1 ELSE 0) ELSE 0
                   t == Take(1 + nt + n, reuse)
                   q == IF turn THEN [i \in 1..Len(t.pages) |-> t.pages[Len(t.pages) + 1 - i]] ELSE t.pages
               IN /\ objs' = [o \in Ids \cup {Cardinality(Ids) + 1} |-> IF o \in Ids THEN objs[o] ELSE
                                [head |-> q[1], tabs |-> SubSeq(q, 2, 1 + nt), data |-> SubSeq(q, 2 + nt, Len(q)), look |-> l, live |-> TRUE]]
                  /\ free' = t.free /\ last' = t.last /\ stale' = stale \ Range(q)
       /\ UNCHANGED leak
\* the table forgets the object
Lose == /\ More
        /\ \E o \in Pick(Ids \cup {0}) : o # 0 /\ objs[o].live /\ objs[o].look = "plain" /\ objs' = [objs EXCEPT ![o].live = FALSE]
        /\ UNCHANGED <<free, stale, leak, last>>
\* the object is dropped properly
Drop == /\ More /\ Old
        /\ \E o \in Pick(Ids \cup {0}) :
             /\ o # 0 /\ Pages(o) # {} /\ objs[o].live
             /\ free' = free \o objs[o].data \o objs[o].tabs \o <<objs[o].head>>
             /\ stale' = stale \cup {objs[o].head}
             /\ objs' = [objs EXCEPT ![o] = [head |-> 0, tabs |-> <<>>, data |-> <<>>, look |-> "plain", live |-> FALSE]]
        /\ UNCHANGED <<leak, last>>
Leak == /\ More /\ leak' = leak \cup {last + 1} /\ last' = last + 1 /\ UNCHANGED <<objs, free, stale>>
Rest == Sim /\ UNCHANGED vars
Next == New \/ Lose \/ Drop \/ Leak \/ Rest
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Present == {o \in Ids : objs[o].head # 0}
Lost == {o \in Present : ~objs[o].live}
\* the same by looking at the pages only: heads that are neither in use nor free
InUse == UNION {Pages(o) : o \in {x \in Present : objs[x].live}} \cup Range(free)
LookLike == {objs[o].head : o \in Present} \cup stale \cup UNION {Range(objs[o].data) : o \in {x \in Present : objs[x].look = "head"}}
ByPages == {p \in LookLike : p \notin InUse}
Found == ByPages = {objs[o].head : o \in Lost}
Apart == \A o \in Present : \A u \in Present : o # u => Pages(o) \cap Pages(u) = {}
FreeApart == \A o \in Present : Pages(o) \cap Range(free) = {}
Covered == First..last = UNION {Pages(o) : o \in Present} \cup Range(free) \cup leak
Record == (ops > 0 /\ (Sim => ops = MaxOps)) =>
            PrintT(ToJson([objs |-> {[id |-> o] @@ objs[o] : o \in Present}, free |-> free, stale |-> stale, leak |-> leak, last |-> last,
                           lost |-> Lost]))
=============================================================================
