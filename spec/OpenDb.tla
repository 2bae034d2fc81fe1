------------------------------- MODULE OpenDb -------------------------------
(* Opening a database file: the header is examined step by step; the result is *)
(* either a refusal or the description of what is stored in the file.          *)
(* A file is described by its signature, version, header page size, number of  *)
(* whole pages, surplus bytes, header page count, locale and table names.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sigs, Vers, PageSizes, Pages, Extras, Deltas, Langs, TableSets, Modes, Emit

Supported == {<<8,0,3,0>>, <<8,0,5,0>>, <<8,1,0,0>>, <<8,2,0,0>>, <<8,2,14,0>>, <<8,3,8,0>>}
ReadOnlyVers == {<<8,0,3,0>>, <<8,0,5,0>>}
PowersOK == {4096, 8192, 16384, 32768, 65536}
Infobase == {"CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA"}
Depot == {"DEPOT", "USERS", "OBJECTS", "VERSIONS", "LABELS", "HISTORY", "LASTESTVERSIONS", "EXTERNALS", "SELFREFS", "OUTREFS"}

VARIABLES f, pc, out
vars == <<f, pc, out>>

Names(t) == {t[i] : i \in DOMAIN t}
EffPage(x) == IF x.ver = <<8,3,8,0>> THEN x.ps ELSE 4096
\* the page the file is made of: for a good 8.3.8 header its page size, otherwise 4096
MadeOf(x) == IF x.ver = <<8,3,8,0>> /\ x.ps \in PowersOK THEN x.ps ELSE 4096
Size(x) == x.pages * MadeOf(x) + x.extra

\* what "structurally valid" means, stated in one piece
ValidHeader(x) == /\ x.sig = "ok"
                  /\ x.ver \in Supported
                  /\ EffPage(x) \in PowersOK
                  /\ Size(x) % EffPage(x) = 0
                  /\ Size(x) \div EffPage(x) = x.pages + x.delta
Complete(x) == LET n == Names(x.tables) IN
    IF n \cap Infobase # {} THEN Infobase \subseteq n
    ELSE IF n \cap Depot # {} THEN Depot \subseteq n ELSE TRUE
Kind(x) == LET n == Names(x.tables) IN
    IF n \cap Infobase # {} THEN "infobase" ELSE IF n \cap Depot # {} THEN "depot" ELSE "none"

\* a file is explored in one dimension of damage at a time or in pairs; the cfg chooses the sets
Init == /\ f \in [sig : Sigs, ver : Vers, ps : PageSizes, pages : Pages, extra : Extras, delta : Deltas,
                  lang : Langs, tables : TableSets, excl : Modes]
        /\ pc = "signature" /\ out = [res |-> "none"]

Refuse == out' = [res |-> "refused"] /\ pc' = "done"
Goto(p) == pc' = p /\ UNCHANGED out
StepSig   == pc = "signature" /\ (IF f.sig = "ok" THEN Goto("version") ELSE Refuse)
StepVer   == pc = "version" /\ (IF f.ver \in Supported THEN Goto("pagesize") ELSE Refuse)
StepPage  == pc = "pagesize" /\ (IF EffPage(f) \in PowersOK THEN Goto("length") ELSE Refuse)
StepLen   == pc = "length" /\ (IF Size(f) % EffPage(f) = 0 THEN Goto("count") ELSE Refuse)
StepCount == pc = "count" /\ (IF Size(f) \div EffPage(f) = f.pages + f.delta THEN Goto("tables") ELSE Refuse)
StepTab   == pc = "tables" /\ (IF Complete(f)
    THEN /\ out' = [res |-> "opened", ver |-> f.ver, ps |-> EffPage(f), lang |-> f.lang, tables |-> f.tables,
                    kind |-> Kind(f), readonly |-> (~f.excl \/ f.ver \in ReadOnlyVers)]
         /\ pc' = "done"
    ELSE Refuse)
Next == /\ UNCHANGED f
        /\ (StepSig \/ StepVer \/ StepPage \/ StepLen \/ StepCount \/ StepTab)
Spec == Init /\ [][Next]_vars

\* nothing but a valid file is ever opened, and every valid file is
OnlyValidOpened == pc = "done" => (out.res = "opened" <=> ValidHeader(f) /\ Complete(f))
Faithful == out.res = "opened" => out.tables = f.tables /\ out.lang = f.lang /\ out.ver = f.ver
Record == (Emit /\ pc = "done") => PrintT(ToJson([f |-> f, o |-> out]))
=============================================================================
