------------------------------ MODULE Depot ------------------------------
(* A configuration repository: versions are committed one after another; every commit adds rows about the
   objects it changes. The oracle is `views`: what the configuration was when each version was committed.
   The rows are what the repository stores; Told is the rule that reads a version back from the rows, and
   the invariant RowsTell says that it gives the view for every version of every history.

   Kept apart for every object: its own data and its external parts (modules, forms). A row of an object may
   carry data, may say that the object is removed, or may carry nothing (it was only moved); a row of an
   external part carries the data or says that the part is as before.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Names, Contents, Formats, MaxVer, MaxGap, MaxRows, Sim
VARIABLES fmt, open, cur, touched, hist, ext, vers, phase, steps
vars == <<fmt, open, cur, touched, hist, ext, vers, phase, steps>>

None == "-"
Absent == [c |-> None, id |-> 0, e |-> [n \in Names |-> [c |-> None, id |-> 0]]]
NoPart == [c |-> None, id |-> 0]
Present(x) == x.c # None
Pick(S) == IF Sim THEN {RandomElement({x \in S : steps >= 0})} ELSE S
(* where the data of a row may lie; v6 and later also keep data outside the database *)
Stores == IF fmt \in {"v6", "v7"} THEN {"inline", "pack", "loose"} ELSE {"inline"}
Snaps == IF ~Sim THEN {"none"} ELSE
         IF fmt = "v3" \/ fmt = "v81" THEN {"none", "good1", "badcrc", "missing"}
         ELSE {"none", "none2", "good1", "root1", "good2", "badcrc", "badcrc2", "damaged", "missing", "empty"}

Init == /\ fmt \in Formats /\ open = 1 /\ cur = [o \in Objs |-> Absent] /\ touched = {} /\ hist = << >>
        /\ ext = << >> /\ vers = << >> /\ phase = "commit" /\ steps = 0
Step == steps' = steps + 1

(* ------------------------------------------------------------------ one object in the open commit *)
Moves(x, n) == IF Present(x.e[n]) THEN {"none", "keep", "copy", "new"} ELSE {"none", "new"}
Change(o) ==
  /\ phase = "commit" /\ o \notin touched /\ Len(hist) < MaxRows
  /\ \E c \in Pick(Contents), s \in Pick(Stores), m \in Pick({f \in [Names -> {"none", "keep", "copy", "new"}] :
                                                        \A n \in Names : f[n] \in Moves(cur[o], n)}),
        ec \in Pick([Names -> Contents]), es \in Pick([Names -> Stores]) :
       LET part == [n \in Names |-> CASE m[n] = "none" -> NoPart
                                      [] m[n] \in {"keep", "copy"} -> cur[o].e[n]
                                      [] OTHER -> [c |-> ec[n], id |-> open]]
           row(n) == [o |-> o, v |-> open, n |-> n, p |-> m[n] # "keep", id |-> part[n].id,
                      c |-> IF m[n] = "keep" THEN None ELSE part[n].c, s |-> es[n]]
           RECURSIVE Add(_, _)
           Add(q, S) == IF S = {} THEN q ELSE LET n == CHOOSE x \in S : TRUE IN Add(Append(q, row(n)), S \ {n})
       IN /\ (\A n \in Names : m[n] = "new" \/ (ec[n] = CHOOSE z \in Contents : TRUE) \/ Sim)
          /\ cur' = [cur EXCEPT ![o] = [c |-> c, id |-> open, e |-> part]]
          /\ hist' = Append(hist, [o |-> o, v |-> open, k |-> "data", c |-> c, s |-> s])
          /\ ext' = Add(ext, {n \in Names : m[n] # "none"})
  /\ touched' = touched \cup {o} /\ Step /\ UNCHANGED <<fmt, open, vers, phase>>
Remove(o) ==
  /\ phase = "commit" /\ o \notin touched /\ Present(cur[o]) /\ Len(hist) < MaxRows
  /\ cur' = [cur EXCEPT ![o] = Absent]
  /\ hist' = Append(hist, [o |-> o, v |-> open, k |-> "gone", c |-> None, s |-> None])
  /\ touched' = touched \cup {o} /\ Step /\ UNCHANGED <<fmt, open, ext, vers, phase>>
Touch(o) ==
  /\ phase = "commit" /\ o \notin touched /\ Present(cur[o]) /\ Len(hist) < MaxRows
  /\ \E k \in Pick({"same", "null"}) : hist' = Append(hist, [o |-> o, v |-> open, k |-> k, c |-> None, s |-> None])
  /\ touched' = touched \cup {o} /\ Step /\ UNCHANGED <<fmt, open, cur, ext, vers, phase>>
Commit ==
  /\ phase = "commit" /\ Len(vers) < MaxVer
  /\ \E g \in Pick(1..MaxGap), s \in Pick(Snaps) :
       /\ vers' = Append(vers, [num |-> open, snap |-> s, view |-> cur])
       /\ open' = open + g
  /\ touched' = {} /\ Step /\ UNCHANGED <<fmt, cur, hist, ext, phase>>

(* ------------------------------------------------------------------ reading a version back *)
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
(* rows are added in the order of versions, so the last index is the latest version *)
Own(o, v) == {i \in DOMAIN hist : hist[i].o = o /\ hist[i].v <= v /\ hist[i].k \in {"data", "gone"}}
PartRows(o, n, v) == {i \in DOMAIN ext : ext[i].o = o /\ ext[i].n = n /\ ext[i].v <= v}
ToldPart(o, n, last, v) ==
  LET R == PartRows(o, n, v) IN
  IF \E i \in R : ext[i].v = last
  THEN LET i == Last({j \in R : ext[j].p}) IN [c |-> ext[i].c, id |-> ext[i].id]
  ELSE NoPart
Told(o, v) ==
  IF Own(o, v) = {} \/ hist[Last(Own(o, v))].k = "gone" THEN Absent
  ELSE LET i == Last(Own(o, v)) IN
       [c |-> hist[i].c, id |-> hist[i].v, e |-> [n \in Names |-> ToldPart(o, n, hist[i].v, v)]]
RowsTell == \A i \in DOMAIN vers : \A o \in Objs : Told(o, vers[i].num) = vers[i].view[o]

(* the version a number stands for: itself, or counted back from the last one *)
Asked(a) == IF a > 0 THEN LET S == {i \in DOMAIN vers : vers[i].num = a} IN IF S = {} THEN 0 ELSE Last(S)
            ELSE IF Len(vers) + a >= 1 THEN Len(vers) + a ELSE 0
MaxNum == IF vers = << >> THEN 0 ELSE vers[Len(vers)].num
Asks == (-(Len(vers) + 1)..(MaxNum + 1))

(* ------------------------------------------------------------------ what changed between two versions *)
Before(o, a) == LET S == {i \in DOMAIN vers : vers[i].num < a} IN IF S = {} THEN Absent ELSE vers[Last(S)].view[o]
RowIn(o, a, b) == \E i \in DOMAIN hist : hist[i].o = o /\ hist[i].v \in a..b /\ hist[i].k = "data"
PartIn(o, n, a, b) == \E i \in DOMAIN ext : ext[i].o = o /\ ext[i].n = n /\ ext[i].v \in a..b
(* "must": written with that content; "may": written with that content or not at all; "no": not written *)
OwnDiff(o, a, b) ==
  LET x == Before(o, vers[a].num)
      y == vers[b].view[o]
      in == RowIn(o, vers[a].num, vers[b].num) IN
  IF ~Present(y) THEN "no" ELSE IF x.c # y.c THEN "must" ELSE IF in THEN "may" ELSE "no"
PartDiff(o, n, a, b) ==
  LET x == Before(o, vers[a].num).e[n]
      y == vers[b].view[o].e[n]
      in == PartIn(o, n, vers[a].num, vers[b].num) IN
  IF ~Present(y) THEN "no" ELSE IF x.c # y.c THEN "must" ELSE IF in THEN "may" ELSE "no"
(* objects in the list of the deleted ones: "must", "may" (it was not there before) or "no" *)
Lost(o, a, b) ==
  LET x == Before(o, vers[a].num)
      y == vers[b].view[o] IN
  IF Present(y) THEN "no" ELSE IF Present(x) THEN "must"
  ELSE IF \E i \in DOMAIN hist : hist[i].o = o /\ hist[i].v \in vers[a].num..vers[b].num THEN "may" ELSE "no"
Diff(a, b) == [a |-> vers[a].num, b |-> vers[b].num,
               own |-> [o \in Objs |-> OwnDiff(o, a, b)],
               part |-> [o \in Objs |-> [n \in Names |-> PartDiff(o, n, a, b)]],
               lost |-> [o \in Objs |-> Lost(o, a, b)]]
(* something that differs between the two versions has a row between them *)
DiffHasRow == \A a, b \in DOMAIN vers : a <= b =>
  \A o \in Objs : (Before(o, vers[a].num) # vers[b].view[o]) =>
     (\E i \in DOMAIN hist : hist[i].o = o /\ hist[i].v \in vers[a].num..vers[b].num)

Done == /\ phase = "commit" /\ touched = {} /\ vers # << >> /\ phase' = "done"
        /\ (Sim => PrintT(ToJson([fmt |-> fmt, hist |-> hist, ext |-> ext, vers |-> vers,
              asks |-> {<<a, Asked(a)>> : a \in Asks},
              diffs |-> {Diff(a, b) : a \in DOMAIN vers, b \in DOMAIN vers} ])))
        /\ Step /\ UNCHANGED <<fmt, open, cur, touched, hist, ext, vers>>
Rest == phase = "done" /\ UNCHANGED vars
Next == (\E o \in Objs : Change(o) \/ Remove(o) \/ Touch(o)) \/ Commit \/ Done \/ (Sim /\ Rest)
Spec == Init /\ [][Next]_vars
===========================================================================
