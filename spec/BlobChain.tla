------------------------------ MODULE BlobChain ------------------------------
(* A long value is kept as a chain of blocks, each with a piece of the value and *)
(* the number of the next block (0 ends the chain).  The chain is laid out block *)
(* by block, sound or damaged, and at the same time read as the reader must.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NBlocks, Lens, MaxPiece, Emit

Outside == NBlocks + 1
VARIABLES start,   \* first block of the value (0: none)
          chain,   \* blocks laid out so far, in chain order: [b, len, next]
          cur,     \* block to read next
          value,   \* pieces read so far: <<block, length>>
          res      \* "reading", "ok", "outside", "oversized", "cycle"
vars == <<start, chain, cur, value, res>>

Used == {chain[i].b : i \in DOMAIN chain}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s)[2] + Sum(Tail(s))

Init == /\ start \in 0..Outside
        /\ chain = <<>> /\ cur = start /\ value = <<>> /\ res = "reading"

\* the reader reaches a block it has not met: its contents are chosen now
ReadNew(len, next) ==
    /\ res = "reading" /\ cur \in 1..NBlocks /\ cur \notin Used
    /\ chain' = Append(chain, [b |-> cur, len |-> len, next |-> next])
    /\ IF len > MaxPiece THEN res' = "oversized" /\ UNCHANGED <<value, cur>>
       ELSE value' = Append(value, <<cur, len>>) /\ cur' = next /\ UNCHANGED res
    /\ UNCHANGED start
ReadOld == res = "reading" /\ cur \in Used /\ res' = "cycle" /\ UNCHANGED <<start, chain, cur, value>>
ReadEnd == res = "reading" /\ cur = 0 /\ res' = "ok" /\ UNCHANGED <<start, chain, cur, value>>
ReadOut == res = "reading" /\ cur = Outside /\ res' = "outside" /\ UNCHANGED <<start, chain, cur, value>>
Next == (\E len \in Lens, next \in 0..Outside : ReadNew(len, next)) \/ ReadOld \/ ReadEnd \/ ReadOut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a finished reading returned the pieces in chain order, each block once
InOrder == /\ \A i \in DOMAIN value : value[i][1] = chain[i].b /\ value[i][2] = chain[i].len
           /\ \A i, j \in DOMAIN chain : i # j => chain[i].b # chain[j].b
           /\ \A i \in 1..(Len(chain) - 1) : chain[i].next = chain[i + 1].b
WholeWhenOk == res = "ok" => Len(value) = Len(chain) /\ (chain = <<>> \/ chain[Len(chain)].next = 0)
Bounded == Len(chain) <= NBlocks
Terminates == <>(res # "reading")
Record == (Emit /\ res # "reading") => PrintT(ToJson([start |-> start, chain |-> chain, res |-> res, total |-> Sum(value)]))
=============================================================================
