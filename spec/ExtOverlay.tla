----------------------------- MODULE ExtOverlay -----------------------------
(* Configuration extensions: CONFIGCAS holds contents under their hash; a      *)
(* version of an extension is a stored list from names to hashes.  CONFIGCASSAVE*)
(* holds pending files of extensions, among them possibly a pending list.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Exts, Vers, Contents, MaxRows, Sim

VARIABLES cas,    \* hashes (contents) that are stored
          list,   \* version -> name -> contents: the stored lists
          pend,   \* extension -> name -> contents: pending files other than the list
          plist,  \* extension -> its pending list, or "none"
          steps
vars == <<cas, list, pend, plist, steps>>
Pick(S) == IF Sim THEN {RandomElement({x \in S : steps >= 0})} ELSE S
Empty == [n \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
NoList == [there |-> FALSE, m |-> Empty]
Init == /\ cas = {} /\ list = [v \in Vers |-> Empty]
        /\ pend = [e \in Exts |-> Empty] /\ plist = [e \in Exts |-> NoList] /\ steps = 0
More == steps < MaxRows /\ steps' = steps + 1
Keep == /\ More /\ \E c \in Pick(Contents) : cas' = cas \cup {c}
        /\ UNCHANGED <<list, pend, plist>>
Name == /\ More /\ \E v \in Pick(Vers) : \E n \in Pick(Names) : \E c \in Pick(Contents) :
              /\ list' = [list EXCEPT ![v] = Put(@, n, c)]
              /\ cas' \in (IF Sim THEN {cas \cup {c}} ELSE {cas, cas \cup {c}})
        /\ UNCHANGED <<pend, plist>>
Edit == /\ More /\ \E e \in Pick(Exts) : \E n \in Pick(Names) : \E c \in Pick(Contents) :
              pend' = [pend EXCEPT ![e] = Put(@, n, c)]
        /\ UNCHANGED <<cas, list, plist>>
EditList == /\ More /\ \E e \in Pick(Exts) : \E v \in Pick(Vers) :
                  plist' = [plist EXCEPT ![e] = [there |-> TRUE, m |-> list[v]]]
            /\ UNCHANGED <<cas, list, pend>>
Next == Keep \/ Name \/ Edit \/ EditList
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Err == [ok |-> FALSE, list |-> "none", m |-> Empty]
\* the stored version: its list and everything the list names
Db(v) == IF \A n \in DOMAIN list[v] : list[v][n] \in cas
         THEN [ok |-> TRUE, list |-> v, m |-> list[v]] ELSE Err
\* the pending version: pending files first, the rest from the list in force
HasPend(e) == DOMAIN pend[e] # {} \/ plist[e].there
Force(e, v) == IF HasPend(e) THEN plist[e].m ELSE list[v]
Main(e, v) ==
  IF HasPend(e) /\ ~plist[e].there THEN Err
  ELSE LET f == Force(e, v) IN
       IF \A n \in DOMAIN f \ DOMAIN pend[e] : f[n] \in cas
       THEN [ok |-> TRUE, list |-> IF HasPend(e) THEN "pending" ELSE v,
             m |-> [n \in DOMAIN f \cup DOMAIN pend[e] |-> IF n \in DOMAIN pend[e] THEN pend[e][n] ELSE f[n]]]
       ELSE Err
PendingFirst == \A e \in Exts : \A v \in Vers : Main(e, v).ok => \A n \in DOMAIN pend[e] : Main(e, v).m[n] = pend[e][n]
NoPendingSame == \A e \in Exts : \A v \in Vers : ~HasPend(e) => Main(e, v) = Db(v)
OthersApart == [][\A e \in Exts : (pend'[e] = pend[e] /\ plist'[e] = plist[e] /\ cas' = cas /\ list' = list) =>
                    \A v \in Vers : Main(e, v)' = Main(e, v)]_vars
Fn(m) == {[n |-> x, c |-> m[x]] : x \in DOMAIN m}
Out(r) == [ok |-> r.ok, list |-> r.list, m |-> Fn(r.m)]
Record == (steps > 0 /\ (Sim => steps = MaxRows)) =>
  PrintT(ToJson([cas |-> cas, list |-> [v \in Vers |-> Fn(list[v])],
                 pend |-> [e \in Exts |-> Fn(pend[e])], plist |-> [e \in Exts |-> [there |-> plist[e].there, m |-> Fn(plist[e].m)]],
                 db |-> [v \in Vers |-> Out(Db(v))], main |-> [e \in Exts |-> [v \in Vers |-> Out(Main(e, v))]]]))
=============================================================================
