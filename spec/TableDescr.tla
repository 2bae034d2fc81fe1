----------------------------- MODULE TableDescr -----------------------------
(* The description of a table and the record layout it determines.            *)
(* A record starts with the deletion mark; version fields come first, in      *)
(* order, then a hidden 8-byte version if the table is locked by records and  *)
(* has no version field, then the other fields in order.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds,       \* field kinds: [t, len, prec, null, case]
          MaxFields, MaxIndexes, MaxIdxFields, Records, Emit

Size(k) == (CASE k.t = "B" -> k.len [] k.t = "L" -> 1 [] k.t = "N" -> (k.len + 2) \div 2
              [] k.t = "NC" -> 2 * k.len [] k.t = "NVC" -> 2 * k.len + 2 [] k.t = "RV" -> 16
              [] k.t \in {"NT", "T", "I"} -> 8 [] k.t = "DT" -> 7 [] k.t = "VB" -> k.len + 2)
           + (IF k.null THEN 1 ELSE 0)
MinRecord == 5

VARIABLES fields, indexes, lock, nrec, done
vars == <<fields, indexes, lock, nrec, done>>

HasVersion == \E i \in DOMAIN fields : fields[i].t = "RV"
Hidden == lock /\ ~HasVersion
\* fields in the order they lie in the record; 0 is the hidden version
Order == LET vs == SelectSeq([i \in DOMAIN fields |-> i], LAMBDA i : fields[i].t = "RV")
             os == SelectSeq([i \in DOMAIN fields |-> i], LAMBDA i : fields[i].t # "RV")
         IN vs \o (IF Hidden THEN <<0>> ELSE <<>>) \o os
SizeAt(i) == IF i = 0 THEN 8 ELSE Size(fields[i])
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE SizeAt(s[n]) + SumTo(s, n - 1)
Offset(i) == LET o == Order p == CHOOSE k \in DOMAIN o : o[k] = i IN 1 + SumTo(o, p - 1)
RawLen == 1 + SumTo(Order, Len(Order))
RecLen == IF RawLen < MinRecord THEN MinRecord ELSE RawLen

Init == fields = <<>> /\ indexes = <<>> /\ lock = FALSE /\ nrec = 0 /\ done = FALSE
AddField == /\ ~done /\ indexes = <<>> /\ Len(fields) < MaxFields
            /\ \E k \in Kinds : /\ ~(k.t = "RV" /\ HasVersion)
                                /\ fields' = Append(fields, k)
            /\ UNCHANGED <<indexes, lock, nrec, done>>
AddIndex == /\ ~done /\ fields # <<>> /\ Len(indexes) < MaxIndexes
            /\ \E n \in 1..MaxIdxFields : n <= Len(fields) /\ \E fs \in [1..n -> DOMAIN fields] :
                 /\ \A i, j \in 1..n : i # j => fs[i] # fs[j]
                 /\ \E p \in BOOLEAN : indexes' = Append(indexes, [primary |-> p, fs |-> fs])
            /\ UNCHANGED <<fields, lock, nrec, done>>
Finish == /\ ~done /\ fields # <<>>
          /\ lock' \in BOOLEAN /\ nrec' \in Records /\ done' = TRUE
          /\ UNCHANGED <<fields, indexes>>
Next == AddField \/ AddIndex \/ Finish
Spec == Init /\ [][Next]_vars

\* the fields, the hidden version and the mark tile the record: no gap and no overlap
Tiled == done => LET parts == {<<Offset(i), SizeAt(i)>> : i \in (DOMAIN fields) \cup (IF Hidden THEN {0} ELSE {})}
    IN /\ \A p, q \in parts : p = q \/ p[1] + p[2] <= q[1] \/ q[1] + q[2] <= p[1] \/ p[2] = 0 \/ q[2] = 0
       /\ \A p \in parts : p[1] >= 1 /\ p[1] + p[2] <= RecLen
VersionFirst == done /\ HasVersion => \E i \in DOMAIN fields : fields[i].t = "RV" /\ Offset(i) = 1
Record == (Emit /\ done) => PrintT(ToJson([fields |-> [i \in DOMAIN fields |-> [k |-> fields[i], off |-> Offset(i), size |-> Size(fields[i])]],
    indexes |-> indexes, lock |-> lock, hidden |-> Hidden, hoff |-> IF Hidden THEN Offset(0) ELSE 0, reclen |-> RecLen, nrec |-> nrec]))
=============================================================================
