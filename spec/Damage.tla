------------------------------- MODULE Damage -------------------------------
(* A database some of whose structures are damaged, and what may become of its tables when it is read.

   A table has a data object, a store of long values and an index file. Each object has a header (signature, length,
   page list); the store holds chains of blocks; the index is a root page with the address of the first leaf and
   leaves that name the next one. A fault gives one place another value. Reading follows what is stored, so the fault
   either leaves what is read alone ("same"), makes it unreadable ("bad": an address outside, a chain that never ends,
   a length that does not fit), gives a value that is not what its record says ("warn"), or makes the table another one
   ("other": nothing can be told about its contents).
   Whatever happens to one table, the others stay what they are, and reading always ends.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Tables,      \* names of tables
          Indexed,     \* those with an index
          NData,       \* pages of a data object
          NBlob,       \* pages of a store of long values
          Chains,      \* the long values of a table: sequences of block numbers
          Used,        \* block -> bytes in it
          AllBlocks,   \* number of blocks of a store (those of other values included)
          NLeaves,     \* leaves of an index
          PerLeaf,     \* records on a leaf
          Gone,        \* table -> deleted records (not in the index)
          MaxFaults, Commands,
          Only,        \* "all", or "endless": what is printed
          Emit, Sim
VARIABLES db, faults, step
vars == <<db, faults, step>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : step >= 0})} ELSE S
Min(a, b) == IF a < b THEN a ELSE b
Blocks == UNION {{c[i] : i \in DOMAIN c} : c \in {Chains[k] : k \in DOMAIN Chains}}
Entries == NLeaves * PerLeaf
OutE == -1                                  \* an address outside the file (object, store, index)
End == -2                                   \* the mark of the last leaf
Root == -3                                  \* the root page of the index
NextOf(b) == LET h == {k \in DOMAIN Chains : \E i \in DOMAIN Chains[k] : Chains[k][i] = b}
                 c == Chains[CHOOSE k \in h : TRUE]
                 i == CHOOSE j \in DOMAIN c : c[j] = b
             IN IF i < Len(c) THEN c[i + 1] ELSE 0

Obj(n) == [sig |-> TRUE, len |-> "right", level |-> TRUE, pages |-> [i \in 1..n |-> i]]
Whole == [data |-> Obj(NData), blob |-> Obj(NBlob),
          next |-> [b \in Blocks |-> NextOf(b)], used |-> [b \in Blocks |-> "right"],
          ref |-> [k \in DOMAIN Chains |-> [start |-> Chains[k][1], len |-> "right"]],
          index |-> Obj(0), tree |-> "right", key |-> "right", first |-> 1, part |-> "right",
          leaf |-> [i \in 1..NLeaves |-> [next |-> IF i < NLeaves THEN i + 1 ELSE End, prev |-> "right", n |-> PerLeaf, width |-> "right"]]]
(* the header of the file, the list of free pages, the root object, the list of tables and the descriptions *)
Base == [sig |-> TRUE, version |-> TRUE, length |-> TRUE, pagesize |-> TRUE, root |-> Obj(1), count |-> "right",
         entry |-> [t \in Tables |-> "right"], text |-> [t \in Tables |-> "right"], free |-> "right"]

Init == /\ db = [base |-> Base, t |-> [x \in Tables |-> Whole]] /\ faults = <<>> /\ step = 0

(* ------------------------------------------------------------------ faults *)
LenVals == {"none", "odd", "less", "more", "huge"}
PageVals(n) == {OutE} \cup (1..n)
Fault(at, v) == [at |-> at, v |-> v]
TableFault(x) ==
    LET w == db.t[x]
        kinds == {"data", "blob"} \cup (IF x \in Indexed THEN {"index"} ELSE {}) IN
    \/ \E o \in kinds :
         \/ w[o].sig /\ db' = [db EXCEPT !.t[x][o].sig = FALSE] /\ faults' = Append(faults, Fault(<<x, o, "sig">>, 0))
         \/ w[o].len = "right" /\ \E v \in Pick(LenVals) : db' = [db EXCEPT !.t[x][o].len = v] /\ faults' = Append(faults, Fault(<<x, o, "len">>, v))
         \/ w[o].level /\ db' = [db EXCEPT !.t[x][o].level = FALSE] /\ faults' = Append(faults, Fault(<<x, o, "level">>, 0))
         \/ DOMAIN w[o].pages # {} /\ \E i \in Pick(1..Len(w[o].pages)) : \E v \in Pick(PageVals(Len(w[o].pages)) \ {w[o].pages[i]}) :
                w[o].pages[i] = i /\ db' = [db EXCEPT !.t[x][o].pages[i] = v] /\ faults' = Append(faults, Fault(<<x, o, "page", i>>, v))
    \/ \E b \in Pick(Blocks) : \E v \in Pick((Blocks \cup {0, OutE}) \ {w.next[b]}) :
         w.next[b] = NextOf(b) /\ db' = [db EXCEPT !.t[x].next[b] = v] /\ faults' = Append(faults, Fault(<<x, "next", b>>, v))
    \/ \E b \in Pick(Blocks) : \E v \in Pick({"less", "empty", "over"}) :
         w.used[b] = "right" /\ db' = [db EXCEPT !.t[x].used[b] = v] /\ faults' = Append(faults, Fault(<<x, "used", b>>, v))
    \/ \E k \in Pick(DOMAIN Chains) : \E v \in Pick((Blocks \cup {0, OutE}) \ {w.ref[k].start}) :
         w.ref[k].start = Chains[k][1] /\ db' = [db EXCEPT !.t[x].ref[k].start = v] /\ faults' = Append(faults, Fault(<<x, "start", k>>, v))
    \/ \E k \in Pick(DOMAIN Chains) : \E v \in Pick({"less", "more", "far", "huge", "none"}) :
         w.ref[k].len = "right" /\ db' = [db EXCEPT !.t[x].ref[k].len = v] /\ faults' = Append(faults, Fault(<<x, "size", k>>, v))
    \* the number of a part in a table of files
    \/ /\ x \notin Indexed /\ w.part = "right"
       /\ \E v \in Pick({"far", "gap", "minus"}) : db' = [db EXCEPT !.t[x].part = v] /\ faults' = Append(faults, Fault(<<x, "part">>, v))
IndexFault(x) ==
    LET w == db.t[x] IN
    /\ x \in Indexed
    /\ \/ \E v \in Pick({"out", "huge"}) : w.tree = "right" /\ db' = [db EXCEPT !.t[x].tree = v] /\ faults' = Append(faults, Fault(<<x, "tree">>, v))
       \/ \E v \in Pick({"huge", "negative"}) : w.key = "right" /\ db' = [db EXCEPT !.t[x].key = v] /\ faults' = Append(faults, Fault(<<x, "key">>, v))
       \/ \E v \in Pick((2..NLeaves) \cup {OutE, 0, Root}) : w.first = 1 /\ db' = [db EXCEPT !.t[x].first = v] /\ faults' = Append(faults, Fault(<<x, "first">>, v))
       \/ \E i \in Pick(1..NLeaves) :
            \/ \E v \in Pick((1..NLeaves) \cup {OutE, End}) : v # w.leaf[i].next /\ w.leaf[i].next = Whole.leaf[i].next
                  /\ db' = [db EXCEPT !.t[x].leaf[i].next = v] /\ faults' = Append(faults, Fault(<<x, "leaf", i, "next">>, v))
            \/ w.leaf[i].prev = "right" /\ db' = [db EXCEPT !.t[x].leaf[i].prev = "wrong"] /\ faults' = Append(faults, Fault(<<x, "leaf", i, "prev">>, "wrong"))
            \/ \E v \in Pick({0, PerLeaf - 1, PerLeaf + 1, PerLeaf * NLeaves + 2, 32767, OutE}) : w.leaf[i].n = PerLeaf
                  /\ db' = [db EXCEPT !.t[x].leaf[i].n = v] /\ faults' = Append(faults, Fault(<<x, "leaf", i, "n">>, v))
            \/ \E v \in Pick({"huge", "negative"}) : w.leaf[i].width = "right"
                  /\ db' = [db EXCEPT !.t[x].leaf[i].width = v] /\ faults' = Append(faults, Fault(<<x, "leaf", i, "width">>, v))
BaseFault ==
    \/ \E p \in Pick({"sig", "version", "length", "pagesize"}) : db.base[p]
          /\ db' = [db EXCEPT !.base[p] = FALSE] /\ faults' = Append(faults, Fault(<<"base", p>>, 0))
    \/ db.base.root.sig /\ db' = [db EXCEPT !.base.root.sig = FALSE] /\ faults' = Append(faults, Fault(<<"base", "root", "sig">>, 0))
    \/ \E v \in Pick({"none", "less", "huge"}) : db.base.root.len = "right" /\ db' = [db EXCEPT !.base.root.len = v] /\ faults' = Append(faults, Fault(<<"base", "root", "len">>, v))
    \/ db.base.root.pages[1] = 1 /\ db' = [db EXCEPT !.base.root.pages[1] = OutE] /\ faults' = Append(faults, Fault(<<"base", "root", "page", 1>>, OutE))
    \/ \E v \in Pick({"negative", "more", "huge"}) : db.base.count = "right" /\ db' = [db EXCEPT !.base.count = v] /\ faults' = Append(faults, Fault(<<"base", "count">>, v))
    \/ \E x \in Pick(Tables) : \E v \in Pick({"out", "huge"}) : db.base.entry[x] = "right"
          /\ db' = [db EXCEPT !.base.entry[x] = v] /\ faults' = Append(faults, Fault(<<"base", "entry", x>>, v))
    \/ \E x \in Pick(Tables) : \E v \in Pick({"nobrace", "noletter", "badtype", "badfile", "nofile", "length", "index", "lock", "cut", "pages"}) : db.base.text[x] = "right"
          /\ db' = [db EXCEPT !.base.text[x] = v] /\ faults' = Append(faults, Fault(<<"base", "text", x>>, v))
    \/ \E v \in Pick({"entries", "count"}) : db.base.free = "right"
          /\ db' = [db EXCEPT !.base.free = v] /\ faults' = Append(faults, Fault(<<"base", "free">>, v))
Damage == /\ Len(faults) < MaxFaults
          /\ \/ (\E x \in Pick(Tables) : TableFault(x)) \/ (\E x \in Pick(Indexed) : IndexFault(x)) \/ BaseFault
          /\ step' = step + 1
Rest == Sim /\ step' = step + 1 /\ UNCHANGED <<db, faults>>
Next == Damage \/ Rest
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ reading *)
Worse(a, b) == IF "bad" \in {a, b} THEN "bad" ELSE IF "warn" \in {a, b} THEN "warn" ELSE IF "other" \in {a, b} THEN "other" ELSE "same"
RECURSIVE Worst(_)
Worst(S) == IF S = {} THEN "same" ELSE LET x == CHOOSE y \in S : TRUE IN Worse(x, Worst(S \ {x}))

(* an object read as a whole; unit lengths are checked when the database is opened *)
PagesOf(o) == IF ~o.sig THEN "bad"
              ELSE IF \E i \in DOMAIN o.pages : o.pages[i] = OutE THEN "bad"
              ELSE IF \E i \in DOMAIN o.pages : o.pages[i] # i THEN "other" ELSE "same"
LenOf(o) == IF o.len = "right" THEN "same" ELSE IF o.len \in {"odd", "huge"} THEN "bad" ELSE "other"
Object(o) == IF ~o.sig THEN "bad" ELSE IF o.len # "right" THEN LenOf(o) ELSE PagesOf(o)

(* The blocks of a value in the order they are read: a value is read until its chain ends or has given more than the
   stored length; no more blocks are read than there are. A chain that gives another length than the stored one is
   a reason for a warning.                                                                                         *)
UsedOf(w, b) == CASE w.used[b] = "right" -> Used[b] [] w.used[b] = "less" -> Used[b] - 1 [] OTHER -> 0
RECURSIVE Walk(_, _, _, _, _, _)
Walk(w, b, want, sum, acc, n) ==
    IF b = 0 THEN [how |-> IF sum = want THEN "read" ELSE "warn", bs |-> acc]
    ELSE IF b = OutE \/ n = 0 THEN [how |-> "bad", bs |-> acc]
    ELSE IF w.used[b] = "over" THEN [how |-> "bad", bs |-> acc]
    ELSE IF sum + UsedOf(w, b) > want THEN [how |-> "warn", bs |-> Append(acc, b)]
    ELSE Walk(w, w.next[b], want, sum + UsedOf(w, b), Append(acc, b), n - 1)
RECURSIVE Total(_)
Total(c) == IF c = <<>> THEN 0 ELSE Used[Head(c)] + Total(Tail(c))
WantOf(w, k) == LET n == Total(Chains[k]) IN
                CASE w.ref[k].len = "right" -> n [] w.ref[k].len = "less" -> n - 1 [] w.ref[k].len = "more" -> n + 1
                  [] w.ref[k].len = "far" -> n + 100 [] w.ref[k].len = "huge" -> 2147483647 [] OTHER -> 0
Reading(w, k) == Walk(w, w.ref[k].start, WantOf(w, k), 0, <<>>, AllBlocks)
Value(w, k) ==
    LET c == Reading(w, k) IN
    IF w.ref[k].start = 0 \/ w.ref[k].len = "none" THEN "other"  \* a value that is not there
    ELSE IF c.how # "read" THEN c.how
    ELSE IF c.bs = Chains[k] /\ (\A i \in DOMAIN c.bs : w.used[c.bs[i]] = "right") THEN "same" ELSE "other"
Values(w) == Worst({Value(w, k) : k \in DOMAIN Chains})
Long(w) == LET o == Object(w.blob) IN IF o = "same" THEN Values(w) ELSE o

(* the records an index names: the leaves in order *)
RECURSIVE Leaves(_, _, _, _)
Leaves(w, i, acc, n) == IF i = End THEN [ok |-> TRUE, ls |-> acc]
                        ELSE IF i = OutE \/ n = 0 THEN [ok |-> FALSE, ls |-> acc]
                        ELSE Leaves(w, w.leaf[i].next, Append(acc, i), n - 1)
RECURSIVE Sum(_, _)
Sum(w, ls) == IF ls = <<>> THEN 0 ELSE w.leaf[Head(ls)].n + Sum(w, Tail(ls))
Order(x) ==
    LET w == db.t[x] IN
    IF x \notin Indexed THEN "same"
    ELSE IF ~w.index.sig \/ w.index.len \in {"none", "odd", "huge"} THEN "bad"
    ELSE IF w.index.len # "right" THEN "other"
    ELSE IF w.tree # "right" THEN "bad"
    ELSE IF w.key # "right" THEN "bad"
    ELSE IF w.first \in {OutE, Root} THEN "bad"
    ELSE IF w.first = 0 THEN "other"
    ELSE LET c == Leaves(w, w.first, <<>>, NLeaves) IN
         IF ~c.ok THEN "bad"
         ELSE IF \E i \in DOMAIN c.ls : w.leaf[c.ls[i]].n = OutE \/ w.leaf[c.ls[i]].n = 32767 THEN "bad"
         ELSE IF \E i \in DOMAIN c.ls : w.leaf[c.ls[i]].width # "right" /\ w.leaf[c.ls[i]].n > 0 THEN "bad"
         ELSE IF Sum(w, c.ls) > Entries + Gone[x] THEN "bad"
         ELSE IF c.ls = [i \in 1..NLeaves |-> i] /\ (\A i \in 1..NLeaves : w.leaf[i].n = PerLeaf) THEN "same"
         ELSE "other"

(* header, root object, list of tables, descriptions: a fault there either makes the database unreadable or is not seen *)
Header == LET b == db.base IN
          IF ~(b.sig /\ b.version /\ b.length /\ b.pagesize) \/ Worse(PagesOf(b.root), "same") # "same" THEN "bad"
          ELSE IF b.root.len # "right" \/ b.count # "right" THEN "bad"
          ELSE IF \E x \in Tables : b.entry[x] # "right" \/ b.text[x] # "right" THEN "bad"
          ELSE "same"
(* what is checked when the database is opened *)
Shape(x) == LET w == db.t[x] IN
            IF Header = "bad" THEN "bad"
            ELSE IF ~w.data.sig \/ w.data.len \in {"odd", "huge"} \/ ~w.blob.sig \/ w.blob.len = "huge" THEN "bad"
            ELSE IF x \in Indexed /\ (~w.index.sig \/ w.index.len \in {"none", "odd", "huge"} \/ w.tree # "right") THEN "bad"
            ELSE "same"
Records(x) == LET w == db.t[x] IN
              IF w.data.len # "right" THEN LenOf(w.data) ELSE PagesOf(w.data)
(* the result of a table by what a command reads of it *)
Result(cmd, x) ==
    LET w == db.t[x]
        s == Shape(x) IN
    IF Header = "bad" THEN "bad"
    ELSE IF ~(w.data.level /\ w.blob.level /\ w.index.level) THEN "other"          \* a page of data is taken for a list of pages
    ELSE IF s = "bad" THEN "bad"
    ELSE CASE cmd = "lost" -> IF w = Whole /\ db.base.free = "right" THEN "same" ELSE "other"
           [] cmd = "vendor" -> IF x \in Indexed \/ w = Whole THEN "same" ELSE "other"
           [] cmd = "xml"  -> IF Order(x) = "bad" THEN "bad"
                              ELSE IF Order(x) = "other" \/ Records(x) = "other" \/ (w.part # "right" /\ "bad" \notin {Records(x), Long(w)}) THEN "other"
                              ELSE Worse(Records(x), Long(w))
           [] cmd = "config" -> IF x \in Indexed THEN "same"
                                ELSE IF Records(x) = "other" \/ w.part = "gap" THEN "other"
                                ELSE IF w.part # "right" THEN "bad"
                                ELSE Worse(Records(x), Long(w))
           [] cmd = "copy" -> IF \E o \in {w.data, w.blob, w.index} : o.len # "right" THEN "other"
                              ELSE IF \E o \in {w.data, w.blob, w.index} : PagesOf(o) = "bad" THEN "bad"
                              ELSE IF w # Whole THEN "other" ELSE "same"
           [] cmd = "sizes" -> IF \E o \in {w.data, w.blob, w.index} : o.len # "right" THEN "other" ELSE "same"
           [] OTHER -> "same"
Results == [c \in Commands |-> [x \in Tables |-> Result(c, x)]]

(* ------------------------------------------------------------------ properties *)
Touched == {faults[i].at[1] : i \in DOMAIN faults}
Sound == faults = <<>> => \A c \in Commands, x \in Tables : Result(c, x) = "same"
(* a fault in one table is no concern of the others *)
Local == \A c \in Commands, x \in Tables : (x \notin Touched /\ "base" \notin Touched) => Result(c, x) = "same"
(* reading a value or an index ends: no walk is longer than what there is *)
Ends == \A x \in Tables : LET w == db.t[x] IN
          /\ \A k \in DOMAIN Chains : Len(Reading(w, k).bs) <= AllBlocks
          /\ (x \in Indexed /\ w.first \notin {0, Root}) => Len(Leaves(w, w.first, <<>>, NLeaves).ls) <= NLeaves
(* an address outside what there is never passes for data *)
NothingOutside == \A x \in Tables : LET w == db.t[x] IN
          (/\ Shape(x) = "same" /\ w.data.level /\ w.blob.level /\ w.index.level /\ w.data.len = "right"
           /\ \E i \in DOMAIN w.data.pages : w.data.pages[i] = OutE) => Result("copy", x) # "same" /\ Result("xml", x) # "same"
(* what the list of free pages says does not matter to reading *)
FreeUnread == (\A i \in DOMAIN faults : faults[i].at[1] = "base" /\ faults[i].at[2] = "free") => \A c \in Commands \ {"lost"}, x \in Tables : Result(c, x) = "same"
(* only the number of blocks or pages ends the reading *)
Endless == \E x \in Tables :
              \/ \E k \in DOMAIN Chains : Len(Reading(db.t[x], k).bs) = AllBlocks
              \/ IF x \in Indexed /\ db.t[x].first > 0
                 THEN LET c == Leaves(db.t[x], db.t[x].first, <<>>, NLeaves) IN ~c.ok /\ Len(c.ls) = NLeaves /\ Sum(db.t[x], c.ls) <= PerLeaf
                 ELSE FALSE
Opens == \A x \in Tables : Shape(x) = "same" /\ db.t[x].data.level /\ db.t[x].blob.level /\ db.t[x].index.level
(* whatever is followed without an end is not taken for a value *)
EndlessIsSeen == (Opens /\ Endless) => \E x \in Tables : Result("xml", x) # "same"
Record == (Emit /\ (Only = "all" \/ (Opens /\ Endless)) /\ (Len(faults) = MaxFaults \/ (Sim /\ faults # <<>>))) => PrintT(ToJson([faults |-> faults, res |-> Results, endless |-> Opens /\ Endless]))
=============================================================================
