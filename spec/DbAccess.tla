------------------------------ MODULE DbAccess ------------------------------
(* Access to the database file. A session opens the file for exclusive or for shared use, reads, tries to write,
   flushes and closes; programs may also be run over the closed file. The oldest formats are read-only however
   they are opened, and a session may give up writing. What is written reaches the file at a flush, at the end of the
   session or before; nothing else may change the file.                                                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Formats, Reads, Writes, Harmless, Programs, Importers, MaxSteps, Sim
VARIABLES fmt, mode, lock, dirty, disk, steps, log, done, ruined
vars == <<fmt, mode, lock, dirty, disk, steps, log, done, ruined>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : steps >= 0})} ELSE S
Open == mode # "closed"
Old == fmt \in {"8.0.3.0", "8.0.5.0"}
ReadOnly == mode = "shared" \/ Old \/ lock
(* a session that ends with pages not flushed leaves a file nothing more is said about *)
More == ~done /\ ~ruined /\ steps < MaxSteps
(* the file after a step: the same, or perhaps another one *)
Log(op, arg, res, file) == log' = Append(log, [op |-> op, arg |-> arg, res |-> res, file |-> file])
Settled == IF dirty THEN "free" ELSE "same"

Init == fmt \in Formats /\ mode = "closed" /\ lock = FALSE /\ dirty = FALSE /\ disk = 0 /\ steps = 0 /\ log = << >> /\ done = FALSE /\ ruined = FALSE
(* pages written to may reach the file at any moment *)
Evict == disk' \in (IF dirty THEN {disk, disk + 1} ELSE {disk})
OpenDb == /\ More /\ mode = "closed"
          /\ \E m \in Pick({"exclusive", "shared"}) :
               /\ mode' = m /\ lock' = FALSE
               /\ Log("open", m, IF m = "shared" \/ Old THEN "readonly" ELSE "writable", "same")
          /\ UNCHANGED <<fmt, dirty, disk, done>>
Read == /\ More /\ Open /\ (\E r \in Pick(Reads) : Log("read", r, "done", Settled)) /\ Evict /\ UNCHANGED <<fmt, mode, lock, dirty, done>>
(* every write is attempted where it has to be refused; where it is not, those that leave a readable database.
   A version number is recorded once in a session. Entering the editing of a table is not yet a change *)
Effect(w) == w # "edit"
Write == /\ More /\ Open
         /\ \E w \in Pick((IF ReadOnly THEN Writes ELSE Harmless) \ (IF disk > 0 \/ dirty THEN {"newversion"} ELSE {})) :
              IF ReadOnly THEN /\ Log("write", w, "refused", Settled) /\ Evict /\ dirty' = dirty
              ELSE /\ Log("write", w, "accepted", IF Effect(w) \/ dirty THEN "free" ELSE "same")
                   /\ dirty' = (dirty \/ Effect(w)) /\ disk' \in (IF dirty' THEN {disk, disk + 1} ELSE {disk})
         /\ UNCHANGED <<fmt, mode, lock, done>>
GiveUp == /\ More /\ Open /\ ~lock /\ lock' = TRUE /\ Log("lock", "", "readonly", Settled) /\ Evict /\ UNCHANGED <<fmt, mode, dirty, done>>
Flush == /\ More /\ Open /\ Log("flush", "", "done", IF dirty THEN "free" ELSE "same") /\ disk' = (IF dirty THEN disk + 1 ELSE disk)
         /\ dirty' = FALSE /\ UNCHANGED <<fmt, mode, lock, done>>
Close == /\ ~done /\ Open /\ Log("close", "", "done", IF dirty THEN "free" ELSE "same") /\ disk' = (IF dirty THEN disk + 1 ELSE disk)
         /\ dirty' = FALSE /\ mode' = "closed" /\ lock' = FALSE /\ UNCHANGED <<fmt, done>>
(* the programs that only read; an import changes a database only when it may be written *)
Program == /\ More /\ mode = "closed"
           /\ \E c \in Pick(Programs) : \E s \in Pick(BOOLEAN) : Log(IF s THEN "shared" ELSE "program", c, "done", "same")
           /\ UNCHANGED <<fmt, mode, lock, dirty, disk, done>>
Import == /\ More /\ mode = "closed"
          /\ \E c \in Pick(Importers) : \E s \in Pick(BOOLEAN) :
               IF s \/ Old THEN Log(IF s THEN "shared" ELSE "program", c, "refused", "same") /\ disk' = disk
               ELSE Log("program", c, "accepted", "free") /\ disk' = disk + 1
          /\ UNCHANGED <<fmt, mode, lock, dirty, done>>
Done == /\ ~done /\ mode = "closed" /\ Len(log) > 0 /\ done' = TRUE /\ (steps >= MaxSteps \/ ~Sim \/ ruined)
        /\ PrintT(ToJson([fmt |-> fmt, log |-> log])) /\ UNCHANGED <<fmt, mode, lock, dirty, disk, log>>
Rest == done /\ UNCHANGED <<fmt, mode, lock, dirty, disk, log, done>>
Next == (OpenDb \/ Read \/ Write \/ GiveUp \/ Flush \/ Close \/ Program \/ Import \/ Done \/ (Sim /\ Rest)) /\ steps' = steps + 1 /\ ruined' = (ruined \/ (dirty /\ mode' = "closed"))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the file only changes when a write was accepted, which needs exclusive use of a format that may be written *)
OldKeeps == Old => disk = 0 /\ ~dirty
Last == log[Len(log)]
Kept == [][(log' # log /\ Last'.file = "same") => disk' = disk]_vars
SharedKeeps == [][(mode = "shared" /\ mode' = "shared") => disk' = disk]_vars
RefusedKeeps == [][(log' # log /\ Last'.res = "refused" /\ ~dirty) => (disk' = disk /\ ~dirty')]_vars
Inv == dirty => (mode = "exclusive" /\ ~Old)
=============================================================================
