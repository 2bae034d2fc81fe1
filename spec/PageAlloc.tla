----------------------------- MODULE PageAlloc -----------------------------
(* Design model of the page layer: objects with one- or two-level page tables, *)
(* a free list kept in table pages (known only in the older formats), growth   *)
(* of the file at its end.  Sizes are in pages; capacities are small constants.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Objs, Sizes, PerTab, RootCap, FreePer, MaxOps, OneLevel, KeepsFree

VARIABLES objs, free, ftab, top, lost, ops
vars == <<objs, free, ftab, top, lost, ops>>
\* objs[o] = [root, tabs, data]; ftab: table pages of the free list; free: the stack of free pages

Rng(s) == {s[i] : i \in 1..Len(s)}
Live == DOMAIN objs
St == [free |-> free, ftab |-> ftab, top |-> top, lost |-> lost]

\* take one page: from the free list if it has one, else at the end of the file
Take(s) == IF s.free # <<>> THEN [p |-> s.free[Len(s.free)], s |-> [s EXCEPT !.free = Front(@)]]
           ELSE [p |-> s.top, s |-> [s EXCEPT !.top = @ + 1]]
\* release one page; when the tables of the list are full the page becomes a table
Give(s, p) == IF ~KeepsFree THEN [s EXCEPT !.lost = @ \cup {p}]
              ELSE IF Len(s.ftab) * FreePer > Len(s.free) THEN [s EXCEPT !.free = Append(@, p)]
              ELSE [s EXCEPT !.ftab = Append(@, p)]

TwoLevel(n) == ~OneLevel \/ n > RootCap
Tabs(n) == IF TwoLevel(n) THEN (n + PerTab - 1) \div PerTab ELSE 0

RECURSIVE TakeN(_, _, _), GiveAll(_, _)
TakeN(s, n, acc) == IF n = 0 THEN [s |-> s, a |-> acc]
                    ELSE LET t == Take(s) IN TakeN(t.s, n - 1, Append(acc, t.p))
GiveAll(s, q) == IF q = <<>> THEN s ELSE GiveAll(Give(s, q[Len(q)]), Front(q))

Resize(o, n) ==
  LET x == objs[o]
      t1 == IF Tabs(n) > Len(x.tabs) THEN TakeN(St, Tabs(n) - Len(x.tabs), x.tabs) ELSE [s |-> St, a |-> SubSeq(x.tabs, 1, Tabs(n))]
      s2 == IF Tabs(n) < Len(x.tabs) THEN GiveAll(t1.s, SubSeq(x.tabs, Tabs(n) + 1, Len(x.tabs))) ELSE t1.s
      d  == IF n > Len(x.data) THEN TakeN(s2, n - Len(x.data), x.data) ELSE [s |-> s2, a |-> SubSeq(x.data, 1, n)]
      s4 == IF n < Len(x.data) THEN GiveAll(d.s, SubSeq(x.data, n + 1, Len(x.data))) ELSE d.s
  IN [s |-> s4, x |-> [x EXCEPT !.tabs = t1.a, !.data = d.a]]

Apply(s) == free' = s.free /\ ftab' = s.ftab /\ top' = s.top /\ lost' = s.lost
Init == /\ objs = [o \in {} |-> <<>>] /\ free = <<>> /\ ftab = <<>> /\ top = 3 /\ lost = {} /\ ops = 0
New == \E o \in Objs \ Live : LET t == Take(St) IN
         /\ objs' = [x \in Live \cup {o} |-> IF x = o THEN [root |-> t.p, tabs |-> <<>>, data |-> <<>>] ELSE objs[x]]
         /\ Apply(t.s)
SetLen == \E o \in Live : \E n \in Sizes : LET r == Resize(o, n) IN
         /\ objs' = [objs EXCEPT ![o] = r.x] /\ Apply(r.s)
Delete == \E o \in Live : LET r == Resize(o, 0) IN
         /\ objs' = [x \in Live \ {o} |-> objs[x]] /\ Apply(Give(r.s, r.x.root))
Next == ops < MaxOps /\ ops' = ops + 1 /\ (New \/ SetLen \/ Delete)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Owners == [o \in Live |-> <<objs[o].root>> \o objs[o].tabs \o objs[o].data]
AllPages == <<0, 1, 2>> \o free \o ftab \o FoldLeft(LAMBDA a, o : a \o Owners[o], <<>>, SetToSeq(Live)) \o SetToSeq(lost)
OneOwner == Len(AllPages) = Cardinality(Rng(AllPages))
NoneLost == Rng(AllPages) = 0..(top - 1) /\ (KeepsFree => lost = {})
Shape == \A o \in Live : Len(objs[o].tabs) = Tabs(Len(objs[o].data))
FreeFits == Len(free) <= Len(ftab) * FreePer
=============================================================================
