------------------------------ MODULE XmlExport ------------------------------
(* The XML export of a table: which records appear, in which order, and what   *)
(* the text of every field decodes to. A table is grown cell by cell; a cell   *)
(* is [null, neg, s] as in FieldValue, where s lists code points for memo (NT) *)
(* and text (T) values and bytes for images (I).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS DeclSets,     \* the possible lists of fields
          MaxRows, MaxLen,
          Chars, Bytes, Ints, Digits, Years, Smalls,
          Indexes,      \* subset of {"none", "secondary", "primary", "second primary"}
          Stale,        \* whether an index may list removed records
          Emit

VARIABLES fields, index, rows, order, cells, cell, phase
vars == <<fields, index, rows, order, cells, cell, phase>>

FV(dd) == INSTANCE FieldValue WITH d <- dd, v <- 0, w <- 0, phase <- 0, Decls <- {}, Pairs <- "all", NegZero <- FALSE
Long(dd) == dd.t \in {"NT", "T", "I"}
Decl == fields[Len(cells) + 1]

\* ------------------------------------------------------------------ text in XML
Amp(name) == <<38>> \o name \o <<59>>
Escape1(c) == CASE c = 38 -> Amp(<<97, 109, 112>>) [] c = 60 -> Amp(<<108, 116>>) [] c = 62 -> Amp(<<103, 116>>) [] c = 39 -> Amp(<<97, 112, 111, 115>>)
              [] c = 34 -> Amp(<<113, 117, 111, 116>>) [] c = 13 -> Amp(<<35, 49, 51>>) [] OTHER -> <<c>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Escape(s) == Flat([i \in DOMAIN s |-> Escape1(s[i])])
RECURSIVE Unescape(_)
Semi(s) == CHOOSE i \in DOMAIN s : s[i] = 59 /\ \A j \in 1..(i - 1) : s[j] # 59
Entity(n) == CHOOSE c \in {38, 60, 62, 39, 34, 13} : Escape1(c) = Amp(n)
Unescape(s) == IF s = <<>> THEN <<>> ELSE IF s[1] # 38 THEN <<s[1]>> \o Unescape(Tail(s))
               ELSE <<Entity(SubSeq(s, 2, Semi(s) - 1))>> \o Unescape(SubSeq(s, Semi(s) + 1, Len(s)))
\* control characters cannot occur in XML at all and are shown as a question mark
Shown(s) == [i \in DOMAIN s |-> IF s[i] < 32 /\ s[i] \notin {9, 10, 13} THEN 63 ELSE s[i]]

\* ------------------------------------------------------------------ images
B64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
RECURSIVE Base64(_)
Base64(s) == IF s = <<>> THEN <<>>
  ELSE LET a == s[1] b == IF Len(s) > 1 THEN s[2] ELSE 0 c == IF Len(s) > 2 THEN s[3] ELSE 0 IN
    <<B64(a \div 4), B64(16 * (a % 4) + (b \div 16)), IF Len(s) > 1 THEN B64(4 * (b % 16) + (c \div 64)) ELSE 61, IF Len(s) > 2 THEN B64(c % 64) ELSE 61>>
    \o Base64(SubSeq(s, 4, Len(s)))
UnB64(c) == IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE IF c <= 57 THEN c + 4 ELSE IF c <= 90 THEN c - 65 ELSE c - 71
RECURSIVE Unbase64(_)
Unbase64(t) == IF t = <<>> THEN <<>>
  ELSE LET p == UnB64(t[1]) q == UnB64(t[2]) r == IF t[3] = 61 THEN 0 ELSE UnB64(t[3]) u == IF t[4] = 61 THEN 0 ELSE UnB64(t[4]) IN
    <<4 * p + (q \div 16)>> \o (IF t[3] = 61 THEN <<>> ELSE <<16 * (q % 16) + (r \div 4)>>) \o (IF t[4] = 61 THEN <<>> ELSE <<64 * (r % 4) + u>>)
    \o Unbase64(SubSeq(t, 5, Len(t)))

\* ------------------------------------------------------------------ the document
Iso(s) == FV(fields[1])!FourD(s[1]) \o <<45>> \o FV(fields[1])!TwoD(s[2]) \o <<45>> \o FV(fields[1])!TwoD(s[3]) \o <<84>>
          \o FV(fields[1])!TwoD(s[4]) \o <<58>> \o FV(fields[1])!TwoD(s[5]) \o <<58>> \o FV(fields[1])!TwoD(s[6])
CellText(dd, x) == CASE dd.t = "DT" -> Iso(x.s) [] dd.t = "I" -> Base64(x.s) [] dd.t \in {"NT", "T"} -> Shown(x.s) [] OTHER -> Shown(FV(dd)!Text(x))
Live(r) == ~rows[r].del
Walk == IF index \in {"primary", "second primary"} THEN SelectSeq(order, Live) ELSE SelectSeq([i \in DOMAIN rows |-> i], Live)
Doc == [i \in DOMAIN Walk |-> LET r == rows[Walk[i]] IN
          [k \in DOMAIN fields |-> [null |-> r.cells[k].null, text |-> IF r.cells[k].null THEN <<>> ELSE CellText(fields[k], r.cells[k])]]]

\* ------------------------------------------------------------------ transitions
Start(dd) == {[null |-> FALSE, neg |-> FALSE, s |-> <<>>]} \cup (IF dd.t = "N" THEN {[null |-> FALSE, neg |-> TRUE, s |-> <<>>]} ELSE {})
             \cup (IF dd.null THEN {[null |-> TRUE, neg |-> FALSE, s |-> <<>>]} ELSE {})
Init == /\ fields \in DeclSets /\ index \in Indexes
        /\ rows = <<>> /\ order = <<>> /\ cells = <<>> /\ phase = "rows"
        /\ cell \in Start(fields[1])
Whole == IF cell.null \/ Long(Decl) THEN TRUE ELSE FV(Decl)!WellFormed(cell)
Grow == /\ phase = "rows" /\ ~cell.null
        /\ IF Long(Decl) THEN /\ Len(cell.s) < MaxLen
                              /\ \E e \in (IF Decl.t = "I" THEN Bytes ELSE Chars) : cell' = [cell EXCEPT !.s = Append(@, e)]
           ELSE /\ ~FV(Decl)!Full(cell.s)
                /\ \E e \in FV(Decl)!Alphabet(cell.s) : cell' = [cell EXCEPT !.s = Append(@, e)]
        /\ UNCHANGED <<fields, index, rows, order, cells, phase>>
NextCell == /\ phase = "rows" /\ Whole /\ Len(cells) + 1 < Len(fields)
            /\ cells' = Append(cells, cell)
            /\ cell' \in Start(fields[Len(cells) + 2])
            /\ UNCHANGED <<fields, index, rows, order, phase>>
Insert(s, p, e) == SubSeq(s, 1, p) \o <<e>> \o SubSeq(s, p + 1, Len(s))
NextRow == /\ phase = "rows" /\ Whole /\ Len(cells) + 1 = Len(fields)
           /\ \E del \in BOOLEAN : \E listed \in (IF del THEN {FALSE} \cup (IF Stale THEN {TRUE} ELSE {}) ELSE {TRUE}) :
                /\ rows' = Append(rows, [cells |-> Append(cells, cell), del |-> del])
                /\ IF listed /\ index # "none" THEN \E p \in {0, Len(order), Len(order) \div 2} : order' = Insert(order, p, Len(rows) + 1) ELSE order' = order
           /\ cells' = <<>>
           /\ IF Len(rows) + 1 = MaxRows THEN phase' = "done" /\ cell' = cell ELSE phase' = phase /\ cell' \in Start(fields[1])
           /\ UNCHANGED <<fields, index>>
Stop == /\ phase = "rows" /\ cells = <<>> /\ cell.s = <<>> /\ phase' = "done" /\ UNCHANGED <<fields, index, rows, order, cells, cell>>
Next == Grow \/ NextCell \/ NextRow \/ Stop
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties of the model
EachOnce == phase = "done" => /\ {Walk[i] : i \in DOMAIN Walk} = {r \in DOMAIN rows : Live(r)}
                              /\ Len(Walk) = Cardinality({r \in DOMAIN rows : Live(r)})
Decodes == phase = "done" => \A i \in DOMAIN Doc : \A k \in DOMAIN fields :
    LET x == rows[Walk[i]].cells[k] t == Doc[i][k].text IN
    /\ Unescape(Escape(t)) = t
    /\ \A j \in DOMAIN Escape(t) : Escape(t)[j] \notin {60, 62, 34, 39, 13}
    /\ (fields[k].t = "I" => Unbase64(t) = x.s)
    /\ ((fields[k].t \in {"NT", "T"} /\ ~x.null /\ (\A j \in DOMAIN x.s : x.s[j] >= 32)) => t = x.s)
CellOut(dd, x) == [null |-> x.null, s |-> IF x.null \/ Long(dd) THEN x.s ELSE FV(dd)!Body(x)]
Record == (Emit /\ phase = "done") => PrintT(ToJson([fields |-> fields, index |-> index, order |-> order, walk |-> Walk, doc |-> Doc,
    rows |-> [r \in DOMAIN rows |-> [del |-> rows[r].del, cells |-> [k \in DOMAIN fields |-> CellOut(fields[k], rows[r].cells[k])]]]]))
=============================================================================
