------------------------------- MODULE CfMap -------------------------------
(* A configuration container as users see it: a tree of members.  node maps    *)
(* each existing path (a sequence of names) to a catalogue or to the bytes of  *)
(* a member.  hist records the calls made, for replay into the code.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Runs

CONSTANTS Names, Lens, Offs, Modes, MaxOps, MaxDepth, Sim, Acts

VARIABLES node, hist, tag
vars == <<node, hist, tag>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
IsCat(p) == IF p = <<>> THEN TRUE ELSE p \in DOMAIN node /\ node[p].k = "cat"
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Cats == {<<>>} \cup {p \in DOMAIN node : node[p].k = "cat"}
Files == {p \in DOMAIN node : node[p].k = "file"}
Slots == {Append(c, n) : c \in {q \in Cats : Len(q) < MaxDepth}, n \in Names}
Set(p, v) == [q \in DOMAIN node \cup {p} |-> IF q = p THEN v ELSE node[q]]
Under(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Drop(p) == [q \in {x \in DOMAIN node : ~Under(p, x)} |-> node[q]]
Contents == {[p |-> q, k |-> node[q].k, r |-> node[q].r] : q \in DOMAIN node}

Init == node = [q \in {} |-> <<>>] /\ hist = <<>> /\ tag = 1
More == Len(hist) < MaxOps
Log(x) == hist' = Append(hist, x)

\* write a member as a whole (creating it if needed)
Write == /\ More /\ "W" \in Acts
         /\ \E p \in Pick(Slots) : \E n \in Pick(Lens) : \E m \in Pick(Modes) :
              /\ p \notin Cats
              /\ node' = Set(p, [k |-> "file", r |-> RCat(<<>>, <<Run(tag, 0, n)>>)])
              /\ Log([a |-> "W", p |-> p, t |-> tag, n |-> n, m |-> m])
         /\ tag' = tag + 1
\* overwrite or append in the middle of a member
WriteAt == /\ More /\ "A" \in Acts /\ Files # {}
           /\ \E p \in Pick(Files) : \E n \in Pick(Lens \ {0}) : \E o \in Pick(Offs) : \E m \in Pick(Modes) :
                LET len == RLen(node[p].r)
                    off == IF o > len THEN len ELSE o
                IN /\ node' = Set(p, [k |-> "file", r |-> ROverlay(node[p].r, off, <<Run(tag, 0, n)>>)])
                   /\ Log([a |-> "A", p |-> p, t |-> tag, n |-> n, o |-> off, m |-> m])
           /\ tag' = tag + 1
\* create a member and write nothing to it
Create == /\ More /\ "C" \in Acts
          /\ \E p \in Pick(Slots) : /\ p \notin DOMAIN node
                                    /\ node' = Set(p, [k |-> "file", r |-> <<>>])
                                    /\ Log([a |-> "C", p |-> p])
          /\ UNCHANGED tag
MkCat == /\ More /\ "M" \in Acts
         /\ \E p \in Pick(Slots) : /\ p \notin DOMAIN node
                                   /\ node' = Set(p, [k |-> "cat", r |-> <<>>])
                                   /\ Log([a |-> "M", p |-> p])
         /\ UNCHANGED tag
Delete == /\ More /\ "D" \in Acts /\ DOMAIN node # {}
          /\ \E p \in Pick(DOMAIN node) : \E m \in Pick(Modes) :
                /\ node' = Drop(p) /\ Log([a |-> "D", p |-> p, m |-> m])
          /\ UNCHANGED tag
Rename == /\ More /\ "N" \in Acts /\ Files # {}
          /\ \E p \in Pick(Files) : \E n \in Pick(Names) :
                LET q == Append(Parent(p), n) IN
                /\ q \notin DOMAIN node
                /\ node' = [x \in (DOMAIN node \ {p}) \cup {q} |-> IF x = q THEN node[p] ELSE node[x]]
                /\ Log([a |-> "N", p |-> p, q |-> n])
          /\ UNCHANGED tag
\* calls that must not change what the container holds
Quiet == /\ More
         /\ \E a \in Pick({"F", "R", "O", "S"} \cap Acts) :
               Log([a |-> a, c |-> Contents])
         /\ UNCHANGED <<node, tag>>
CloseFile == /\ More /\ "X" \in Acts /\ Files # {}
             /\ \E p \in Pick(Files) : Log([a |-> "X", p |-> p])
             /\ UNCHANGED <<node, tag>>
Next == Write \/ Create \/ WriteAt \/ MkCat \/ Delete \/ Rename \/ Quiet \/ CloseFile
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
ParentsExist == \A p \in DOMAIN node : IsCat(Parent(p))
LeavesHaveBytes == \A p \in DOMAIN node : node[p].k = "cat" => node[p].r = <<>>
NoGhosts == \A p \in DOMAIN node : \A q \in DOMAIN node : (p # q /\ Under(p, q)) => node[p].k = "cat"
\* in every step, members other than the one named keep their bytes
OthersKept == [][\A p \in DOMAIN node \cap DOMAIN node' :
                    node[p] # node'[p] => hist'[Len(hist')].a \in {"W", "A"} /\ hist'[Len(hist')].p = p]_vars
Record == Len(hist) = MaxOps => PrintT(ToJson([h |-> hist, c |-> Contents]))
=============================================================================
