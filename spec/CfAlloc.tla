------------------------------ MODULE CfAlloc ------------------------------
(* The allocator of the container as a transition system over block images.    *)
(* Addresses follow the real layout (31-byte block headers, table of contents  *)
(* at 16 with a page of PageCap), sizes are small.                             *)
EXTENDS CfBlocks
CONSTANTS Files, Sizes, PageCap, HdrLen, MaxOps

VARIABLES img, len, saved, ops
vars == <<img, len, saved, ops>>

\* take the block at address a for writing: from the free list, fresh at the end, or existing
\* WriteChain(img, start, n, cap0): writes n bytes into the chain at start (0 = new), returns image and first address.
NextOf(im, a) == IF a = 0 \/ a = NONE THEN (IF im.head = NONE THEN im.end ELSE im.head) ELSE a

FreeChain(im, a) ==
  LET c == Chain(im, a).s IN
  IF a = 0 \/ a = NONE THEN im
  ELSE [im EXCEPT !.head = a,
                  !.blk = [x \in DOMAIN @ |->
                     IF \E i \in 1..Len(c) : c[i] = x
                     THEN [@[x] EXCEPT !.dlen = NONE, !.next = IF @ = NONE THEN im.head ELSE @]
                     ELSE @[x]]]

RECURSIVE Put(_, _, _, _, _, _)
\* one block per call, as the code's loop: first = TRUE for the first block of the chain
Put(im, at, n, total, first, page) ==
  LET isFree == at = im.head
      isNew == ~isFree /\ at = im.end
      cap == IF isNew THEN (IF page > n THEN page ELSE n) ELSE im.blk[at].cap
      oldnext == IF isNew THEN 0 ELSE im.blk[at].next
      im1 == IF isFree THEN [im EXCEPT !.head = oldnext] ELSE im
      nxt == IF oldnext = 0 THEN im1.end + HeaderSize + cap ELSE NextOf(im1, oldnext)
      b == [cap |-> cap, dlen |-> IF first THEN total ELSE 0, next |-> IF n <= cap THEN NONE ELSE nxt]
      im2 == [im1 EXCEPT !.blk = [x \in DOMAIN @ \cup {at} |-> IF x = at THEN b ELSE @[x]],
                         !.end = IF isNew THEN @ + HeaderSize + cap ELSE @]
  IN IF n > cap THEN Put(im2, nxt, n - cap, total, FALSE, page)
     ELSE IF nxt < im2.end /\ nxt # im2.head THEN FreeChain(im2, nxt) ELSE im2

PutChain(im, start, n, page) ==
  LET im0 == IF im.end = 16 /\ start # TocAddr THEN Put(im, TocAddr, 0, 0, TRUE, PageCap) ELSE im
      at == NextOf(im0, start)
  IN [img |-> Put(im0, at, n, n, TRUE, page), at |-> at]

Members == {f \in Files : len[f] >= 0}
EmptyImage == [end |-> 16, head |-> NONE, blk |-> [x \in {} |-> 0], toc |-> <<>>, map |-> [f \in {} |-> 0]]

Init == img = EmptyImage /\ len = [f \in Files |-> -1] /\ saved = TRUE /\ ops = 0

\* write a member as a whole: data, then header; the table of contents is written by Save
WriteFile(f, n) ==
  /\ ops < MaxOps
  /\ LET old == IF f \in DOMAIN img.map THEN img.map[f] ELSE [h |-> 0, d |-> 0]
         w1 == PutChain(img, old.d, n, 0)
         w2 == PutChain(w1.img, old.h, HdrLen, 0)
     IN img' = [w2.img EXCEPT !.map = [x \in DOMAIN @ \cup {f} |-> IF x = f THEN [h |-> w2.at, d |-> w1.at] ELSE @[x]]]
  /\ len' = [len EXCEPT ![f] = n]
  /\ saved' = (saved /\ f \in DOMAIN img.map)
  /\ ops' = ops + 1
DeleteFile(f) ==
  /\ ops < MaxOps /\ f \in DOMAIN img.map
  /\ LET a == FreeChain(img, img.map[f].d)
         b == FreeChain(a, img.map[f].h)
     IN img' = [b EXCEPT !.map = [x \in DOMAIN @ \ {f} |-> @[x]]]
  /\ len' = [len EXCEPT ![f] = -1]
  /\ saved' = FALSE
  /\ ops' = ops + 1
Save ==
  /\ ~saved
  /\ LET s == SetToSeq(DOMAIN img.map)
         toc == [i \in 1..Len(s) |-> img.map[s[i]]]
         w == PutChain(img, TocAddr, 12 * Len(s), PageCap)
     IN img' = [w.img EXCEPT !.toc = toc]
  /\ saved' = TRUE /\ UNCHANGED <<len, ops>>
Next == (\E f \in Files, n \in Sizes : WriteFile(f, n)) \/ (\E f \in Files : DeleteFile(f)) \/ Save
Spec == Init /\ [][Next]_vars

Image == [end |-> img.end, head |-> img.head, blk |-> img.blk, toc |-> img.toc]
\* between saves the table of contents on disk is old: judge with the current member addresses
Live == [Image EXCEPT !.toc = LET s == SetToSeq(DOMAIN img.map) IN [i \in 1..Len(s) |-> img.map[s[i]]]]
LiveNoToc == LET cs == Chains(Live) IN ChainsEnd(cs) /\ NoSharing(cs) /\ NoLeak(Live, cs) /\ LongEnough(Live, cs)
                                      /\ NoExcess(Live, cs) /\ Tiles(Live, TocAddr)
StructureOK == img.end > 16 => LiveNoToc
SavedOK == (saved /\ img.end > 16) => Intact(Image)
LengthsOK == \A f \in DOMAIN img.map : img.blk[img.map[f].d].dlen = len[f]
GrowsOnlyWhenFull == [][Reuses(img, img')]_vars
=============================================================================
