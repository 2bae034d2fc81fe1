---------------------------- MODULE OutputPlaces ----------------------------
(* Where data of a database are written. Items of the database (tables, external files, supplier configurations,
   members of containers) have names that the database chooses; each is written to a place below the directory
   that the user has given, or below the directory of the container that holds it.
   Names are sequences of characters; "/" and "bs" separate the parts of a path, "/" at the start means the root.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Tokens, MaxTokens, MaxItems, Emit, Sim
VARIABLES kind, items, cur, steps, done
vars == <<kind, items, cur, steps, done>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : steps >= 0})} ELSE S
Chars(t) == IF t = ".." THEN <<".", ".">> ELSE <<t>>

(* ------------------------------------------------------------- file system *)
RECURSIVE Parts(_, _)
Parts(s, part) == IF s = <<>> THEN <<part>> ELSE IF s[1] = "/" THEN <<part>> \o Parts(Tail(s), <<>>) ELSE Parts(Tail(s), Append(part, s[1]))
RECURSIVE Go(_, _)
Go(dir, ps) == IF ps = <<>> THEN dir
               ELSE Go(IF ps[1] \in {<<>>, <<".">>} THEN dir ELSE IF ps[1] = <<".", ".">> THEN (IF dir = <<>> THEN dir ELSE SubSeq(dir, 1, Len(dir) - 1)) ELSE Append(dir, ps[1]), Tail(ps))
Resolve(dir, s) == Go(IF s # <<>> /\ s[1] = "/" THEN <<>> ELSE dir, Parts(s, <<>>))
Below(dir, p) == Len(p) > Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir
Dest == << <<"s">>, <<"t">>, <<"o", "u", "t">> >>
(* the place if the name were used as it is *)
Naive(dir, s) == Resolve(dir, s)

(* -------------------------------------------------------------- the places *)
Forbidden == {"/", "bs", ":", "*", "?", "lt", "gt", "bar", "quote", "nul", "nl"}
Plain(s) == s \notin {<<>>, <<".">>, <<".", ".">>} /\ \A i \in DOMAIN s : s[i] \notin Forbidden
Clean(s) == LET r == [i \in DOMAIN s |-> IF s[i] \in Forbidden THEN "_" ELSE s[i]] IN
            IF Plain(r) THEN r ELSE Append(r, "_")
Lower(s) == [i \in DOMAIN s |-> IF s[i] = "A" THEN "a" ELSE s[i]]
RECURSIVE Free(_, _, _)
Free(s, used, n) == LET r == IF n = 1 THEN s ELSE s \o <<"_", ToString(n)>> IN IF Lower(r) \in used THEN Free(s, used, n + 1) ELSE r
Siblings(its, i) == {j \in 1..(i - 1) : its[j].up = its[i].up}
RECURSIVE Own(_, _)
Own(its, i) == Free(Clean(its[i].name), {Lower(Own(its, j)) : j \in Siblings(its, i)}, 1)
RECURSIVE Dir(_, _)
Dir(its, p) == IF p = 0 THEN Dest ELSE Append(Dir(its, its[p].up), Own(its, p))
Place(its, i) == Resolve(Dir(its, its[i].up), Own(its, i))
(* an item whose name nobody else has is found under it *)
Kept(i) == /\ Plain(items[i].name)
           /\ \A j \in DOMAIN items : (j # i /\ items[j].up = items[i].up) => Lower(Clean(items[j].name)) # Lower(items[i].name)
           /\ \A j \in DOMAIN items : (j # i /\ items[j].up = items[i].up) => Lower(Own(items, j)) # Lower(items[i].name)

(* ------------------------------------------------------------- transitions *)
Init == kind \in Kinds /\ items = <<>> /\ cur = <<>> /\ steps = 0 /\ done = FALSE
Write == /\ ~done /\ Len(items) < MaxItems /\ Len(cur) < MaxTokens
         /\ \E t \in Pick(Tokens) : cur' = Append(cur, t)
         /\ steps' = steps + 1 /\ UNCHANGED <<kind, items, done>>
RECURSIVE Spell(_)
Spell(ts) == IF ts = <<>> THEN <<>> ELSE Chars(ts[1]) \o Spell(Tail(ts))
Boxes == IF kind = "member" THEN {0} \cup {i \in DOMAIN items : items[i].box} ELSE {0}
Level(i) == IF items[i].up = 0 THEN 1 ELSE 2
May(it) == IF kind \in {"table", "external"} THEN \A j \in DOMAIN items : Lower(Clean(items[j].name)) # Lower(Clean(it.name))
           ELSE IF kind = "supplier" THEN TRUE
           ELSE \A j \in DOMAIN items : items[j].up = it.up => items[j].name # it.name
Add == /\ ~done /\ Len(items) < MaxItems
       /\ \E u \in Pick(Boxes) : \E b \in Pick(IF kind = "member" THEN BOOLEAN ELSE {FALSE}) :
            LET it == [name |-> Spell(cur), box |-> b /\ (u = 0 \/ Level(u) = 1), up |-> u] IN
            May(it) /\ items' = Append(items, it)
       /\ cur' = <<>> /\ steps' = steps + 1 /\ UNCHANGED <<kind, done>>
Finish == /\ ~done /\ items # <<>> /\ cur = <<>> /\ done' = TRUE /\ steps' = steps + 1 /\ UNCHANGED <<kind, items, cur>>
Rest == Sim /\ done /\ steps' = steps + 1 /\ UNCHANGED <<kind, items, cur, done>>
Next == Write \/ Add \/ Finish \/ Rest
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
Contained == \A i \in DOMAIN items : LET p == Place(items, i) d == Dir(items, items[i].up) IN Below(Dest, p) /\ Len(p) = Len(d) + 1 /\ Below(d, p)
Apart == \A i, j \in DOMAIN items : (i # j /\ items[i].up = items[j].up) => Lower(Own(items, i)) # Lower(Own(items, j))
Faithful == \A i \in DOMAIN items : Kept(i) => Own(items, i) = items[i].name
Record == (Emit /\ done) => PrintT(ToJson([kind |-> kind, items |-> [i \in DOMAIN items |->
             [name |-> items[i].name, box |-> items[i].box, up |-> items[i].up, kept |-> Kept(i),
              leaves |-> ~Below(Dir(items, items[i].up), Naive(Dir(items, items[i].up), items[i].name))]]]))
=============================================================================
