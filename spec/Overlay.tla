------------------------------ MODULE Overlay ------------------------------
(* The configuration of an information base as it is stored: files in CONFIG,  *)
(* files of dynamic updates and files waiting to be applied beside them, and   *)
(* pending files in CONFIGSAVE with a list of deleted ones.  Two configurations*)
(* are read from it: that of the database and the main one (being edited).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Stems, Objects, Exts, Updates, Listable, Forms, MaxRows, MaxSteps, Sim

VARIABLES db,      \* files of CONFIG: physical file -> contents
          save,    \* files of CONFIGSAVE: logical file -> contents
          listed,  \* dynamic updates in the order they were applied
          deleted, \* files named as deleted
          tag, steps
vars == <<db, save, listed, deleted, tag, steps>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : steps >= 0})} ELSE S
None == "none"
New == "new"
Logical == [s : Stems, e : Exts]
Phys == [s : Stems, e : Exts, u : {None, New} \cup Updates]
Of(f) == [s |-> f.s, e |-> f.e]
Rows == Cardinality(DOMAIN db) + Cardinality(DOMAIN save)
Add(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Range(q) == {q[i] : i \in 1..Len(q)}
Idx(u) == CHOOSE i \in 1..Len(listed) : listed[i] = u

\* a file whose contents are empty, or whose record is deleted, is not stored
Stored(m) == {f \in DOMAIN m : m[f].f \notin {"empty", "removed"}}
\* how new a file of CONFIG is; files waiting to be applied belong to the main
\* configuration and stand in the database only for what has nothing else
Rank(f, main) == IF f.u = None THEN -1
                 ELSE IF f.u = New THEN (IF main THEN Len(listed) + 1 ELSE -2)
                 ELSE IF f.u \in Range(listed) THEN Idx(f.u) - 1 ELSE -2
\* a name is gone from the main configuration when the list of deleted files names it
Gone(f) == f.e = "" /\ f.u = None /\ f.s \in deleted
Cands(l, main) == {f \in Stored(db) : Of(f) = l /\ ~(main /\ Gone(f))}
Best(l, main) == CHOOSE f \in Cands(l, main) : \A g \in Cands(l, main) : Rank(g, main) <= Rank(f, main)
View(main) == [l \in {x \in Logical : Cands(x, main) # {} \/ (main /\ x \in Stored(save))} |->
                 IF main /\ l \in Stored(save) THEN save[l] ELSE db[Best(l, main)]]
\* left open: two files equally new; a deleted file with further files of the same object
NoTies == \A main \in BOOLEAN : \A f \in Stored(db) : \A g \in Stored(db) :
            (Of(f) = Of(g) /\ f # g) => Rank(f, main) # Rank(g, main)
Clear == \A s \in deleted : /\ \A f \in DOMAIN db : f.s = s => (f.e = "" /\ f.u = None)
                            /\ \A l \in DOMAIN save : l.s # s
Init == /\ db = [x \in {} |-> [t |-> 0, f |-> "one"]] /\ save = [x \in {} |-> [t |-> 0, f |-> "one"]]
        /\ listed = <<>> /\ deleted = {} /\ tag = 1 /\ steps = 0
More == steps < MaxSteps /\ steps' = steps + 1
Store == /\ More /\ Rows < MaxRows
         /\ \E f \in Pick(Phys) : \E m \in Pick(Forms) :
              /\ f \notin DOMAIN db
              /\ db' = Add(db, f, [t |-> tag, f |-> m])
         /\ tag' = tag + 1 /\ UNCHANGED <<save, listed, deleted>>
Pend == /\ More /\ Rows < MaxRows
        /\ \E f \in Pick(Logical) : \E m \in Pick(Forms) :
              /\ f \notin DOMAIN save
              /\ save' = Add(save, f, [t |-> tag, f |-> m])
        /\ tag' = tag + 1 /\ UNCHANGED <<db, listed, deleted>>
Apply == /\ More
         /\ \E u \in Pick(Listable) : u \notin Range(listed) /\ listed' = Append(listed, u)
         /\ UNCHANGED <<db, save, deleted, tag>>
Delete == /\ More
          /\ \E s \in Pick(Objects) : s \notin deleted /\ deleted' = deleted \cup {s}
          /\ UNCHANGED <<db, save, listed, tag>>
Rest == More /\ Sim /\ UNCHANGED <<db, save, listed, deleted, tag>>
Next == (Store \/ Pend \/ Apply \/ Delete \/ Rest) /\ NoTies' /\ Clear'
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the laws behind the definition
PendingFirst == \A l \in Stored(save) : View(TRUE)[l] = save[l]
DbIgnoresPending == \A l \in DOMAIN View(FALSE) : View(FALSE)[l] \in {db[f] : f \in {g \in Stored(db) : Of(g) = l}}
NewestWins == NoTies => \A main \in BOOLEAN : \A f \in Stored(db) :
                (f.u # None /\ Of(f) \in DOMAIN View(main) /\ f.u \in Range(listed) /\ ~(main /\ Of(f) \in Stored(save))) =>
                  \A g \in Stored(db) : (Of(g) = Of(f) /\ View(main)[Of(f)] = db[g]) => Rank(g, main) >= Rank(f, main)
DeletedGone == Clear => \A s \in deleted : [s |-> s, e |-> ""] \notin DOMAIN View(TRUE)
Fn(m) == {[f |-> x, t |-> m[x].t, m |-> m[x].f] : x \in DOMAIN m}
Record == (steps > 0 /\ NoTies /\ Clear /\ (Sim => steps = MaxSteps)) =>
            PrintT(ToJson([db |-> Fn(db), save |-> Fn(save), listed |-> listed, deleted |-> deleted,
                           vdb |-> Fn(View(FALSE)), vmain |-> Fn(View(TRUE))]))
=============================================================================
