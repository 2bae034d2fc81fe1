----------------------------- MODULE ReportFile -----------------------------
(* Where the messages of a run go. A path is nothing, a file, a directory (empty or with contents), or lies in a
   directory that does not exist. Runs follow each other; each one carries out some commands, may name a log file
   and may be told to be quiet. A log file holds the messages of the last run that named it; directories and their
   contents stay whatever they are given for.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, Commands, MaxCommands, MaxRuns, Emit, Sim
VARIABLES fs, runs, cmds, step
vars == <<fs, runs, cmds, step>>

Kinds == {"none", "file", "empty", "full", "lost"}
Pick(S) == IF Sim THEN {RandomElement({x \in S : step >= 0})} ELSE S
(* what is at a path: a kind, and for a file the number of the run whose messages it holds (0: something older) *)
Init == /\ fs = [p \in Paths |-> [k |-> "none", by |-> 0]] /\ runs = <<>> /\ cmds = <<>> /\ step = 0
Prepare == /\ step = 0
           /\ \E f \in (IF Sim THEN {[p \in Paths |-> RandomElement({k \in Kinds : p \in Paths})]} ELSE [Paths -> Kinds]) : fs' = [p \in Paths |-> [k |-> f[p], by |-> 0]]
           /\ step' = 1 /\ UNCHANGED <<runs, cmds>>
Say == /\ step >= 1 /\ Len(cmds) < MaxCommands /\ Len(runs) < MaxRuns
       /\ \E c \in Pick(Commands) : cmds' = Append(cmds, c)
       /\ step' = step + 1 /\ UNCHANGED <<fs, runs>>
Writable(p) == fs[p].k \in {"none", "file"}
NoLog == "-"
Shown(l, quiet) == l = NoLog /\ ~quiet
Run == /\ step >= 1 /\ Len(runs) < MaxRuns
       /\ \E l \in Pick(Paths \cup {NoLog}) : \E quiet \in Pick(BOOLEAN) : \E at \in Pick({0, Len(cmds)}) :
            /\ runs' = Append(runs, [cmds |-> cmds, log |-> l, quiet |-> quiet, at |-> at, shown |-> Shown(l, quiet),
                                     written |-> l # NoLog /\ Writable(l), before |-> fs,
                                     after |-> IF l # NoLog /\ Writable(l) THEN [fs EXCEPT ![l] = [k |-> "file", by |-> Len(runs) + 1]] ELSE fs])
            /\ fs' = IF l # NoLog /\ Writable(l) THEN [fs EXCEPT ![l] = [k |-> "file", by |-> Len(runs) + 1]] ELSE fs
       /\ cmds' = <<>> /\ step' = step + 1
Rest == Sim /\ Len(runs) = MaxRuns /\ step' = step + 1 /\ UNCHANGED <<fs, runs, cmds>>
Next == Prepare \/ Say \/ Run \/ Rest
Spec == Init /\ [][Next]_vars

DirectoriesStay == \A i \in DOMAIN runs : \A p \in Paths : runs[i].before[p].k \in {"empty", "full", "lost"} => fs[p] = runs[i].before[p]
OthersStay == \A i \in DOMAIN runs : \A p \in Paths : p # runs[i].log => runs[i].after[p] = runs[i].before[p]
LastRun == \A p \in Paths : fs[p].by > 0 => /\ runs[fs[p].by].log = p
                                            /\ \A i \in DOMAIN runs : i > fs[p].by => runs[i].log # p
NeverBoth == \A i \in DOMAIN runs : ~(runs[i].shown /\ runs[i].written)
Record == (Emit /\ Len(runs) = MaxRuns) => PrintT(ToJson([runs |-> runs]))
=============================================================================
