---------------------------- MODULE ExportImport ----------------------------
(* Databases with tables of the same structure, and a directory with exported  *)
(* tables.  A table is its contents (records, long values and indexes belong   *)
(* together) and whether it has an object for long values; an exported table   *)
(* is what the table was, less the files that were lost since.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Bases,      \* databases
          Tables,     \* their tables
          Contents,   \* contents a table can have
          Long,       \* those of them that have long values
          Patterns,   \* table filters of a command: name -> selected tables
          Old,        \* the format keeps a description object for every table
          MaxOps, Sim

VARIABLES base,   \* database -> table -> table state
          dir,    \* table -> exported state
          start,  \* the databases at first
          hist
vars == <<base, dir, start, hist>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : Len(hist) >= 0})} ELSE S
Nothing == [c |-> "-", blob |-> FALSE, lost |-> {"-"}]
Gone == [c |-> "-", blob |-> FALSE]
Parts(x) == {"root", "data", "index"} \cup (IF x.blob THEN {"blob"} ELSE {}) \cup (IF Old THEN {"descr"} ELSE {})
States == {x \in [c : Contents, blob : BOOLEAN] : x.c \in Long => x.blob}
Has(b) == {t \in Tables : base[b][t] # Gone}

Possible == {x \in States \cup (IF Old THEN {Gone} ELSE {}) : Len(hist) >= 0}
Unbuilt == [b \in Bases |-> [t \in Tables |-> Gone]]
Init == base = Unbuilt /\ start = Unbuilt /\ dir = [t \in Tables |-> Nothing] /\ hist = <<>>
Build == /\ start = Unbuilt
         /\ \E x \in (IF Sim THEN {[b \in Bases |-> [t \in Tables |-> RandomElement(Possible)]]} ELSE [Bases -> [Tables -> Possible]]) :
              x # Unbuilt /\ base' = x /\ start' = x
         /\ UNCHANGED <<dir, hist>>
More == start # Unbuilt /\ Len(hist) < MaxOps
Log(x) == start' = start /\ hist' = Append(hist, x @@ [after |-> base', dir |-> dir'])

Export == /\ More
          /\ \E b \in Pick(Bases) : \E p \in Pick(DOMAIN Patterns) :
               /\ dir' = [t \in Tables |-> IF t \in Patterns[p] \cap Has(b) THEN [c |-> base[b][t].c, blob |-> base[b][t].blob, lost |-> {}] ELSE dir[t]]
               /\ UNCHANGED base
               /\ Log([op |-> "export", base |-> b, p |-> p, ok |-> TRUE])
\* every file an exported table consists of is there
Complete(t) == dir[t] # Nothing /\ dir[t].lost = {}
\* an object for long values can be added where the table has a description of its own
Fits(b, t) == dir[t].blob => (base[b][t].blob \/ Old)
Can(b, t) == Complete(t) /\ Fits(b, t)
Into(b, t) == [c |-> dir[t].c, blob |-> dir[t].blob \/ base[b][t].blob]
Import == /\ More
          /\ \E b \in Pick(Bases) : \E p \in Pick(DOMAIN Patterns) :
               LET s == Patterns[p] \cap Has(b)
                   ok == \A t \in s : Can(b, t) IN
               /\ s # {}
               /\ (~ok => Cardinality(s) = 1)     \* which tables are loaded before a refusal is left open
               /\ base' = [base EXCEPT ![b] = [t \in Tables |-> IF ok /\ t \in s THEN Into(b, t) ELSE base[b][t]]]
               /\ UNCHANGED dir
               /\ Log([op |-> "import", base |-> b, p |-> p, ok |-> ok])
\* the table is created anew, in place of one of that name
Create == /\ More
          /\ \E b \in Pick(Bases) : \E t \in Pick(Tables) :
               LET ok == Complete(t) /\ Old IN
               /\ dir[t] # Nothing
               /\ base' = [base EXCEPT ![b][t] = IF ok THEN [c |-> dir[t].c, blob |-> dir[t].blob] ELSE @]
               /\ UNCHANGED dir
               /\ Log([op |-> "create", base |-> b, p |-> t, ok |-> ok])
Lose == /\ More
        /\ \E t \in Pick(Tables) : \E f \in Pick({"root", "data", "index", "blob", "descr"}) :
             /\ dir[t] # Nothing /\ f \in Parts(dir[t]) /\ dir[t].lost = {}
             /\ dir' = [dir EXCEPT ![t].lost = {f}]
             /\ UNCHANGED base
             /\ Log([op |-> "lose", base |-> f, p |-> t, ok |-> TRUE])
Rest == Sim /\ UNCHANGED vars
Next == Build \/ Export \/ Import \/ Create \/ Lose \/ Rest
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* a table that was loaded has what was exported last, and long values have their object
Sound == \A b \in Bases : \A t \in Tables : base[b][t] # Gone => base[b][t] \in States
\* loading back what was just saved changes nothing
Back == \A k \in 2..Len(hist) : (hist[k].op = "import" /\ hist[k].ok /\ hist[k - 1].op = "export" /\ hist[k].base = hist[k - 1].base /\ hist[k].p = hist[k - 1].p) =>
            hist[k].after = hist[k - 1].after
\* what was exported from one database and loaded into another is the same there
Carried == \A k \in 2..Len(hist) : (hist[k].op = "import" /\ hist[k].ok /\ hist[k - 1].op = "export" /\ hist[k].p = hist[k - 1].p) =>
            \A t \in Patterns[hist[k].p] : LET x == hist[k].after[hist[k].base][t]
                                               y == hist[k].after[hist[k - 1].base][t] IN
                (x # Gone /\ y # Gone) => x.c = y.c
\* nothing else changes, and a refusal changes nothing
Others == [][\A k \in {Len(hist')} : Len(hist') > Len(hist) =>
              LET h == hist'[k] IN
              /\ \A b \in Bases : (b # h.base \/ h.op = "export" \/ ~h.ok) => base'[b] = base[b]
              /\ (h.op = "import" => \A t \in Tables \ Patterns[h.p] : base'[h.base][t] = base[h.base][t])]_vars
Record == (Len(hist) = MaxOps) => PrintT(ToJson([start |-> start, hist |-> hist]))
=============================================================================
