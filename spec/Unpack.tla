------------------------------- MODULE Unpack -------------------------------
(* How long values are wrapped, and what the export with unpacking writes.     *)
(* A value is a term: plain contents, deflated, stored with a password mask,   *)
(* a stored value of the language (a head, and possibly a tail that replaces    *)
(* it), a container of members, or something broken.  The result is a file     *)
(* with contents or a directory.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Places, Plain, Masks, Names, MaxMembers, MaxLayers, Emit
VARIABLES place, val, layers, phase
vars == <<place, val, layers, phase>>

P(x) == [k |-> "plain", id |-> x]
Z(x) == [k |-> "deflated", x |-> x]
U(m, x) == [k |-> "masked", mask |-> m, x |-> x]
S(z, h, t) == [k |-> "stored", packed |-> z, head |-> h, tail |-> t]
B(ms) == [k |-> "box", ms |-> ms]
X(b, x) == [k |-> "broken", how |-> b, x |-> x]
NoTail == P("")

System == place # "user"
Users == place \in {"users", "v8users"}
Depth == IF place \in {"config", "configsave"} THEN 1 ELSE 2    \* how often a value of the table is deflated at most

\* ------------------------------------------------------------------ what is written
File(x) == [file |-> TRUE, x |-> x, ms |-> <<>>]
RECURSIVE Member(_, _), Peel(_, _), Layers(_)
Dir(ms, packed) == [file |-> FALSE, x |-> NoTail, ms |-> [i \in DOMAIN ms |-> [n |-> ms[i].n, r |-> Member(ms[i].x, packed)]]]
\* members of a container that was deflated twice are deflated themselves; a member that is a container becomes a directory
Member(x, packed) == LET y == IF packed /\ x.k = "deflated" THEN x.x ELSE x IN IF y.k = "box" THEN Dir(y.ms, FALSE) ELSE File(y)
Peel(x, n) == IF x.k = "deflated" /\ n > 0 THEN Peel(x.x, n - 1) ELSE x
Layers(x) == IF x.k = "deflated" THEN 1 + Layers(x.x) ELSE 0
Result == IF Users THEN File(IF val.k = "masked" THEN val.x ELSE val)
          ELSE IF System THEN LET y == Peel(val, Depth) IN
                 IF y.k = "box" THEN Dir(y.ms, Depth = 2 /\ Layers(val) >= 2) ELSE File(y)
          ELSE IF val.k = "stored" THEN File(IF val.tail = NoTail THEN val.head ELSE val.tail)
          ELSE File(val)
\* what the value means is fixed by its place: users are masked, other values of the system tables are not, ...
Definite == /\ (Users => val.k = "masked" \/ (val.k = "broken" /\ val.how = "mask"))
            /\ (LET y == Peel(val, Depth) IN
                  y.k = "box" => /\ y.ms # <<>>
                                 /\ (Layers(val) >= 2 => \A i \in DOMAIN y.ms : y.ms[i].x.k = "deflated" \/ y.ms[i].x = P("empty")))
            /\ (val.k = "broken" => IF Users THEN val.how = "mask" ELSE IF System THEN val.how = "cut" ELSE val.how \notin {"mask", "cut"})

\* ------------------------------------------------------------------ transitions
Init == /\ place \in Places /\ layers = 0 /\ phase = "build"
        /\ val \in {P(x) : x \in Plain} \cup (IF MaxMembers > 0 THEN {B(<<>>)} ELSE {})
Used == IF val.k = "box" THEN {val.ms[i].n : i \in DOMAIN val.ms} ELSE {}
AddMember == /\ phase = "build" /\ val.k = "box" /\ Len(val.ms) < MaxMembers
             /\ \E n \in Names \ Used : \E x \in Plain :
                  \E form \in {P(x), Z(P(x)), B(<<[n |-> n, x |-> P(x)]>>), Z(B(<<[n |-> n, x |-> P(x)]>>)), B(<<[n |-> n, x |-> Z(P(x))]>>)} :
                     val' = [val EXCEPT !.ms = Append(@, [n |-> n, x |-> form])]
             /\ UNCHANGED <<place, layers, phase>>
Deflate == /\ phase = "build" /\ layers < MaxLayers /\ val' = Z(val) /\ layers' = layers + 1 /\ UNCHANGED <<place, phase>>
Mask == /\ phase = "build" /\ Users /\ \E m \in Masks : val' = U(m, val) /\ phase' = "wrapped" /\ UNCHANGED <<place, layers>>
Store == /\ phase = "build" /\ ~System /\ layers < MaxLayers
         /\ \E z \in BOOLEAN : \E t \in {NoTail} \cup {P(x) : x \in Plain} : val' = S(z, val, t)
         /\ phase' = "wrapped" /\ UNCHANGED <<place, layers>>
Break == /\ phase = "build" /\ \E b \in {"cut", "mask", "short", "signature", "garbage"} : val' = X(b, val)
         /\ phase' = "wrapped" /\ UNCHANGED <<place, layers>>
Stop == phase \in {"build", "wrapped"} /\ phase' = "done" /\ UNCHANGED <<place, val, layers>>
Next == AddMember \/ Deflate \/ Mask \/ Store \/ Break \/ Stop
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties of the model
\* nothing is lost: the contents of the result occur in the value, and with nothing to unwrap the value itself is written
RECURSIVE Leaves(_), Shown(_)
Leaves(x) == CASE x.k = "plain" -> {x.id} [] x.k \in {"deflated", "masked", "broken"} -> Leaves(x.x)
               [] x.k = "stored" -> Leaves(x.head) \cup Leaves(x.tail) [] x.k = "box" -> UNION {Leaves(x.ms[i].x) : i \in DOMAIN x.ms}
Shown(r) == IF r.file THEN Leaves(r.x) ELSE UNION {Shown(r.ms[i].r) : i \in DOMAIN r.ms}
Kept == phase = "done" /\ Definite => Shown(Result) \subseteq Leaves(val) /\ (val.k # "stored" => Shown(Result) = Leaves(val))
Plainly == phase = "done" /\ val.k = "plain" => Result = File(val)
MembersKept == phase = "done" /\ Definite /\ ~Result.file => LET y == Peel(val, Depth) IN Len(Result.ms) = Len(y.ms) /\ \A i \in DOMAIN y.ms : Result.ms[i].n = y.ms[i].n
Record == (Emit /\ phase = "done" /\ Definite) => PrintT(ToJson([place |-> place, val |-> val, res |-> Result]))
=============================================================================
