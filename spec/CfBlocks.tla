------------------------------ MODULE CfBlocks ------------------------------
(* The block structure of a container file.  An image is                       *)
(*   [end, head, blk, toc]: blk maps the address of each block to [cap, dlen,  *)
(*   next] (capacity, recorded data length, next address), head is the first   *)
(*   free block, toc the sequence of [h, d] addresses of the members.          *)
(* Intact(image) is the property; the transition system below is the block     *)
(* allocator of the container (first-fit chain reuse, free list, append), one  *)
(* action per member operation, checked exhaustively for small sizes.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NONE == 2147483647
TocAddr == 16
HeaderSize == 31

RECURSIVE ChainFrom(_, _, _)
\* the blocks of a chain in order; <<>> when it leaves the file or runs in a circle
ChainFrom(img, a, seen) ==
  IF a = NONE THEN [ok |-> TRUE, s |-> <<>>]
  ELSE IF a \notin DOMAIN img.blk \/ a \in seen THEN [ok |-> FALSE, s |-> <<>>]
  ELSE LET rest == ChainFrom(img, img.blk[a].next, seen \cup {a})
       IN [ok |-> rest.ok, s |-> <<a>> \o rest.s]
Chain(img, a) == ChainFrom(img, a, {})
Capacity(img, s) == FoldLeft(LAMBDA x, a : x + img.blk[a].cap, 0, s)

Roots(img) == <<TocAddr>> \o FlattenSeq([i \in 1..Len(img.toc) |-> <<img.toc[i].h, img.toc[i].d>>])
\* every chain that starts at a root or at the free list
Chains(img) == [i \in 1..(Len(Roots(img)) + 1) |->
                  IF i = 1 THEN Chain(img, img.head) ELSE Chain(img, Roots(img)[i - 1])]
AllBlocks(cs) == FlattenSeq([i \in 1..Len(cs) |-> cs[i].s])

ChainsEnd(cs) == \A i \in 1..Len(cs) : cs[i].ok
NoSharing(cs) == IsInjective(AllBlocks(cs))
NoLeak(img, cs) == LET all == AllBlocks(cs) IN DOMAIN img.blk = {all[i] : i \in 1..Len(all)}
\* the chains of the table of contents and of the members hold the length recorded for them
LongEnough(img, cs) == \A i \in 2..Len(cs) :
                     LET c == cs[i] IN c.s # <<>> /\ img.blk[c.s[1]].dlen <= Capacity(img, c.s)
\* a chain takes no more blocks than its length needs (released space goes back to the free list)
NoExcess(img, cs) == \A i \in 2..Len(cs) :
                     LET c == cs[i].s IN Len(c) > 1 => Capacity(img, SubSeq(c, 1, Len(c) - 1)) < img.blk[c[1]].dlen
\* the blocks tile the file from just after the file header
RECURSIVE Tiles(_, _)
Tiles(img, a) == IF a = img.end THEN TRUE
                 ELSE a \in DOMAIN img.blk /\ Tiles(img, a + HeaderSize + img.blk[a].cap)
TocMatches(img) == TocAddr \in DOMAIN img.blk => img.blk[TocAddr].dlen = 12 * Len(img.toc)

\* the empty string when the image is intact, else the name of what is broken
Defect(img) ==
  LET cs == Chains(img) IN
  CASE ~ChainsEnd(cs) -> "a chain leaves the file or runs in a circle"
    [] ~NoSharing(cs) -> "a block belongs to two chains"
    [] ~NoLeak(img, cs) -> "a block belongs to no chain"
    [] ~LongEnough(img, cs) -> "a chain is shorter than its recorded length"
    [] ~NoExcess(img, cs) -> "a chain holds more blocks than its length needs"
    [] ~Tiles(img, TocAddr) -> "the blocks do not tile the file"
    [] ~TocMatches(img) -> "the table of contents has the wrong length"
    [] OTHER -> ""
Intact(img) == Defect(img) = ""

\* growing the file is only allowed when the free list is exhausted
Reuses(before, after) == after.end > before.end => after.head = NONE
=============================================================================
