-------------------------------- MODULE Pack --------------------------------
(* Packing and unpacking of byte sequences. A sequence is a content with       *)
(* layers of packing around it, the outermost first; the outermost layer may   *)
(* be damaged. The empty sequence has no packed form. Unpacking takes the      *)
(* source from its position and appends to the destination.                    *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Contents,     \* [pat, len]
          Styles,       \* how a layer that was there at the start was packed
          Cuts,         \* how many bytes are cut off the end: 1, "half", "most"
          MaxOps, MaxLayers, Emit

VARIABLES ini, cur, hist
vars == <<ini, cur, hist>>

Empty(x) == x.len = 0 /\ x.layers = <<>>
Damaged(x) == x.damage # "none"
Plain(x) == x.layers = <<>>

Deflate(x) == IF Empty(x) THEN x ELSE IF Damaged(x) THEN [x EXCEPT !.layers = <<"own", x.damage>> \o @, !.damage = "none"] ELSE [x EXCEPT !.layers = <<"own">> \o @]
\* what remains after the outermost layer is taken off: a damaged sequence that was packed again shows its damage
Inner(x) == IF Len(x.layers) > 1 /\ x.layers[2] \in Cuts \cup {"broken"}
            THEN [x EXCEPT !.damage = x.layers[2], !.layers = SubSeq(@, 3, Len(@))]
            ELSE [x EXCEPT !.layers = Tail(@)]
Unpackable(x) == ~Damaged(x) /\ ~Plain(x)
Inflate(x) == IF Empty(x) THEN [ok |-> TRUE, x |-> x] ELSE IF Unpackable(x) THEN [ok |-> TRUE, x |-> Inner(x)] ELSE [ok |-> FALSE, x |-> x]
OrCopy(x) == IF Unpackable(x) THEN Inner(x) ELSE x

Log(o) == hist' = Append(hist, o)
More == Len(hist) < MaxOps /\ UNCHANGED ini
DoDeflate == /\ More /\ Len(cur.layers) < MaxLayers /\ cur' = Deflate(cur) /\ Log([op |-> "deflate", ok |-> TRUE, x |-> Deflate(cur)])
DoInflate == /\ More /\ LET r == Inflate(cur) IN cur' = r.x /\ Log([op |-> "inflate", ok |-> r.ok, x |-> r.x])
DoOrCopy == /\ More /\ cur' = OrCopy(cur) /\ Log([op |-> "orcopy", ok |-> TRUE, x |-> OrCopy(cur)])
DoCut == /\ More /\ ~Plain(cur) /\ ~Damaged(cur)
         /\ \E c \in Cuts : cur' = [cur EXCEPT !.damage = c] /\ Log([op |-> "cut", ok |-> TRUE, how |-> c, x |-> [cur EXCEPT !.damage = c]])

Init == /\ \E c \in Contents : \E l \in UNION {[1..n -> Styles] : n \in 0..2} : \E b \in {"none"} \cup (IF l # <<>> THEN {"broken"} ELSE {}) :
             /\ c.len = 0 => l = <<>>
             /\ cur = [pat |-> c.pat, len |-> c.len, layers |-> l, damage |-> b]
        /\ ini = cur /\ hist = <<>>
Next == DoDeflate \/ DoInflate \/ DoOrCopy \/ DoCut
Spec == Init /\ [][Next]_vars

\* unpacking undoes packing, whatever the sequence is, and a failed unpacking loses nothing
Inverse == ~Empty(cur) => Inflate(Deflate(cur)) = [ok |-> TRUE, x |-> cur]
Kept == [][cur'.pat = cur.pat /\ cur'.len = cur.len]_vars
Through == ~Unpackable(cur) => OrCopy(cur) = cur
Record == (Emit /\ Len(hist) = MaxOps) => PrintT(ToJson([ini |-> ini, hist |-> hist]))
=============================================================================
