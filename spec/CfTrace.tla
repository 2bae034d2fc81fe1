------------------------------ MODULE CfTrace ------------------------------
(* Judges block images recorded from the code.  images.json holds a sequence   *)
(* of histories; each history is a sequence of images, one after every saved   *)
(* step (plus images of nested containers, with top = FALSE).  For each image  *)
(* the record printed names the defect, or says that the file grew although a  *)
(* free block was left.                                                        *)
EXTENDS CfBlocks, Json

Data == JsonDeserialize("images.json")
VARIABLE i

Img(x) == [end |-> x.end, head |-> x.head, toc |-> x.toc,
           blk |-> [a \in {x.blk[j].a : j \in 1..Len(x.blk)} |->
                      LET b == x.blk[CHOOSE j \in 1..Len(x.blk) : x.blk[j].a = a]
                      IN [cap |-> b.cap, dlen |-> b.dlen, next |-> b.next]]]

Judge(h) ==
  LET bad(j) == IF h[j].err # "" THEN h[j].err
                ELSE IF h[j].end = 16 THEN (IF h[j].head = NONE THEN "" ELSE "an empty container has a free list")
                ELSE Defect(Img(h[j]))
      grew(j) == /\ j > 1 /\ h[j].top /\ h[j - 1].top /\ h[j].step
                 /\ h[j].err = "" /\ h[j - 1].err = "" /\ h[j - 1].end > 16
                 /\ ~Reuses(h[j - 1], h[j])
  IN [j \in 1..Len(h) |-> IF bad(j) # "" THEN bad(j)
                          ELSE IF grew(j) THEN "the file grew although a free block was left" ELSE ""]

Init == i = 1
Next == i <= Len(Data) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Report == i <= Len(Data) => PrintT(ToJson([i |-> i, v |-> Judge(Data[i])]))
=============================================================================
