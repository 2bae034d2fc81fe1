----------------------------- MODULE IndexTree -----------------------------
(* A table and an index over it, as a tree of pages.                          *)
(* Leaves hold (key, record) pairs and are linked; branches hold, for each    *)
(* child, its last key, its last record and its page.                         *)
(* Walk is the traversal the tool uses: descend along first children, then    *)
(* follow the links.  InOrder is the definition: the pairs below the root.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRec, KeyMax,      \* records and keys 1..KeyMax (keys may repeat)
          LeafMin, LeafMax, Fans,
          Orders,              \* placements of the pages: "asc", "desc", "odd"
          Stale,               \* TRUE: the index may still list deleted records
          Emit

VARIABLES recs,      \* in storage order: [k, del]
          left,      \* entries still to be put on leaves, in index order
          leaves,    \* leaves built so far, each a sequence of entries
          stale, fan, order, phase
vars == <<recs, left, leaves, stale, fan, order, phase>>

Entry(i) == [k |-> recs[i].k, r |-> i - 1]
Before(a, b) == a.k < b.k \/ (a.k = b.k /\ a.r < b.r)
Wanted == {i \in DOMAIN recs : stale \/ ~recs[i].del}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE e \in S : \A f \in S : e = f \/ Before(e, f) IN <<m>> \o Sorted(S \ {m})

Init == recs = <<>> /\ left = <<>> /\ leaves = <<>> /\ stale = FALSE /\ fan = 2 /\ order = "asc" /\ phase = "records"
AddRec == /\ phase = "records" /\ Len(recs) < MaxRec
          /\ \E k \in 1..KeyMax, d \in BOOLEAN : recs' = Append(recs, [k |-> k, del |-> d])
          /\ UNCHANGED <<left, leaves, stale, fan, order, phase>>
Order1 == /\ phase = "records"
          /\ stale' \in (IF Stale THEN BOOLEAN ELSE {FALSE}) /\ fan' \in Fans /\ order' \in Orders
          /\ left' = Sorted({Entry(i) : i \in {j \in DOMAIN recs : stale' \/ ~recs[j].del}})
          /\ phase' = "leaves" /\ UNCHANGED <<recs, leaves>>
Leaf == /\ phase = "leaves" /\ left # <<>>
        /\ \E n \in LeafMin..LeafMax : \/ n < Len(left) /\ leaves' = Append(leaves, SubSeq(left, 1, n)) /\ left' = SubSeq(left, n + 1, Len(left))
                                       \/ n >= Len(left) /\ n = LeafMax /\ leaves' = Append(leaves, left) /\ left' = <<>>
                                       \/ n = Len(left) /\ n < LeafMax /\ leaves' = Append(leaves, left) /\ left' = <<>>
        /\ UNCHANGED <<recs, stale, fan, order, phase>>
Empty == /\ phase = "leaves" /\ left = <<>> /\ leaves = <<>>
         /\ leaves' = <<<<>>>> /\ UNCHANGED <<recs, left, stale, fan, order, phase>>
Close == /\ phase = "leaves" /\ left = <<>> /\ leaves # <<>> /\ phase' = "done"
         /\ UNCHANGED <<recs, left, leaves, stale, fan, order>>
Next == AddRec \/ Order1 \/ Leaf \/ Empty \/ Close
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ the pages
RECURSIVE Parts(_)
Parts(n) == IF n <= fan THEN <<n>> ELSE <<fan>> \o Parts(n - fan)
RECURSIVE Levels(_)      \* for each level above the leaves, how many children each branch has
Levels(n) == IF n = 1 THEN <<>> ELSE LET p == Parts(n) IN <<p>> \o Levels(Len(p))
Lv == Levels(Len(leaves))
RECURSIVE Total(_, _)
Total(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i]) + Total(s, i + 1)
NPages == Len(leaves) + Total(Lv, 1)
\* the place of the n-th page (leaves first, then the levels upwards)
Place(n) == CASE order = "asc" -> n [] order = "desc" -> NPages + 1 - n
              [] order = "odd" -> IF 2 * n - 1 <= NPages THEN 2 * n - 1 ELSE 2 * (n - (NPages + 1) \div 2)
RECURSIVE Below(_, _)
Below(lv, i) == IF lv = 0 THEN leaves[i]
   ELSE LET first == (i - 1) * fan + 1
            n == Lv[lv][i]
            RECURSIVE Cat(_)
            Cat(j) == IF j > n THEN <<>> ELSE Below(lv - 1, first + j - 1) \o Cat(j + 1)
        IN Cat(1)
Num(lv, i) == Place((IF lv = 0 THEN 0 ELSE Len(leaves) + Total(SubSeq(Lv, 1, lv - 1), 1)) + i)
Pages == [p \in 1..NPages |->
   LET c == CHOOSE x \in UNION {{<<lv, i>> : i \in 1..(IF lv = 0 THEN Len(leaves) ELSE Len(Lv[lv]))} : lv \in 0..Len(Lv)} : Num(x[1], x[2]) = p
       lv == c[1] i == c[2] n == IF lv = 0 THEN Len(leaves) ELSE Len(Lv[lv])
   IN [leaf |-> lv = 0, root |-> lv = Len(Lv),
       prev |-> IF i = 1 THEN 0 ELSE Num(lv, i - 1), nxt |-> IF i = n THEN 0 ELSE Num(lv, i + 1),
       items |-> IF lv = 0 THEN leaves[i]
                 ELSE [j \in 1..Lv[lv][i] |-> LET b == Below(lv - 1, (i - 1) * fan + j) IN [k |-> b[Len(b)].k, r |-> b[Len(b)].r, page |-> Num(lv - 1, (i - 1) * fan + j)]]]]
Root == Num(Len(Lv), 1)

\* ------------------------------------------------------------------ traversals
RECURSIVE InOrder(_, _)
InOrder(ps, p) == IF ps[p].leaf THEN ps[p].items
   ELSE LET RECURSIVE Cat(_)
            Cat(j) == IF j > Len(ps[p].items) THEN <<>> ELSE InOrder(ps, ps[p].items[j].page) \o Cat(j + 1)
        IN Cat(1)
RECURSIVE Leftmost(_, _)
Leftmost(ps, p) == IF ps[p].leaf THEN p ELSE Leftmost(ps, ps[p].items[1].page)
RECURSIVE Chain(_, _)
Chain(ps, p) == ps[p].items \o (IF ps[p].nxt = 0 THEN <<>> ELSE Chain(ps, ps[p].nxt))
Walk(ps) == Chain(ps, Leftmost(ps, Root))
Nums(s) == [i \in DOMAIN s |-> s[i].r]
Live(s) == SelectSeq(s, LAMBDA e : ~recs[e.r + 1].del)

Done == phase = "done"
SameWalk == Done => LET ps == Pages IN Walk(ps) = InOrder(ps, Root)
EachOnce == Done => LET s == Live(Walk(Pages)) IN /\ {s[i].r : i \in DOMAIN s} = {i - 1 : i \in {j \in DOMAIN recs : ~recs[j].del}}
                                                  /\ Len(s) = Cardinality({i \in DOMAIN recs : ~recs[i].del})
InKeyOrder == Done => LET s == Walk(Pages) IN \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1])
Record == (Emit /\ Done) => LET ps == Pages IN PrintT(ToJson([recs |-> recs, pages |-> ps, root |-> Root, nums |-> Nums(Walk(ps)), live |-> Nums(Live(Walk(ps))),
      storage |-> [i \in 1..Len(SelectSeq([j \in DOMAIN recs |-> j], LAMBDA j : ~recs[j].del)) |-> SelectSeq([j \in DOMAIN recs |-> j], LAMBDA j : ~recs[j].del)[i] - 1]]))
=============================================================================
