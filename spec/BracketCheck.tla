----------------------------- MODULE BracketCheck -----------------------------
(* Judges texts printed by the code: each record of the trace pairs a text the  *)
(* code printed with the tree it printed it from.  One step per record.         *)
EXTENDS BracketText, IOUtils
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == l = 1 /\ Init
TNext == /\ l <= Len(Trace)
         /\ LET r == Parse(Trace[l].x) IN r.res = "ok" /\ r.tree = Trace[l].tree
         /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
