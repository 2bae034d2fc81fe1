----------------------------- MODULE DamagedBox -----------------------------
(* A configuration container some of whose blocks are damaged, and what may become of its members when it is unpacked.

   A container is a number of blocks: a list of members (the table of contents), and for every member a chain with its
   header and one with its data. A block has a length, the address of the next one, and, in the first block of a chain,
   the number of bytes of the whole chain. A fault gives one of these, or an address in the list, another value.
   Reading a chain takes from every block what it holds until the number of bytes is reached, and follows the chain to
   its end.                                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Blocks,      \* the blocks: names
          TocOf, HeadOf, DataOf,   \* the first block of a chain: of the list, and of the header and the data of a member
          NextB,       \* block -> next one, or "none"
          Cap,         \* block -> its length
          Size,        \* first block -> bytes of its chain
          Entry,       \* bytes of an entry of the list of members
          Members,     \* sequence of names of members
          MaxFaults, Emit, Sim
VARIABLES box, faults, step
vars == <<box, faults, step>>
Pick(S) == IF Sim THEN {RandomElement({x \in S : step >= 0})} ELSE S
Min(a, b) == IF a < b THEN a ELSE b
M == DOMAIN Members
Chain(m, k) == IF k = "h" THEN HeadOf[m] ELSE DataOf[m]      \* "none" for a member without data
Firsts == DOMAIN Size
Whole == [next |-> NextB, cap |-> [b \in Blocks |-> "right"], size |-> [b \in Firsts |-> "right"],
          h |-> [m \in M |-> HeadOf[m]], d |-> [m \in M |-> DataOf[m]], start |-> "right", mark |-> TRUE]
Init == box = Whole /\ faults = <<>> /\ step = 0

(* "in": the address of some place that is no block; "edge": the last bytes; "out": behind the end; "minus": negative *)
Addr == Blocks \cup {"none", "in", "edge", "end", "out", "minus"}
Fault(at, v) == [at |-> at, v |-> v]
Damage ==
    /\ Len(faults) < MaxFaults
    /\ \/ \E b \in Pick(Blocks) : \E v \in Pick(Addr \ {NextB[b]}) :
            box.next[b] = NextB[b] /\ box' = [box EXCEPT !.next[b] = v] /\ faults' = Append(faults, Fault(<<"next", b>>, v))
       \/ \E b \in Pick(Blocks) : \E v \in Pick({"zero", "less", "more", "huge", "minus", "noise"}) :
            box.cap[b] = "right" /\ box' = [box EXCEPT !.cap[b] = v] /\ faults' = Append(faults, Fault(<<"cap", b>>, v))
       \/ \E b \in Pick(Firsts) : \E v \in Pick({"zero", "less", "tiny", "more", "huge", "minus", "noise"}) :
            box.size[b] = "right" /\ box' = [box EXCEPT !.size[b] = v] /\ faults' = Append(faults, Fault(<<"size", b>>, v))
       \/ \E m \in Pick(M) : \E k \in Pick({"h", "d"}) : \E v \in Pick((Addr \cup (IF k = "d" THEN {"zero"} ELSE {})) \ {Chain(m, k)}) :
            box[k][m] = Chain(m, k) /\ box' = [box EXCEPT ![k][m] = v] /\ faults' = Append(faults, Fault(<<k, m>>, v))
       \/ \E v \in Pick({"in", "end", "out", "minus", "block"}) : box.start = "right" /\ box' = [box EXCEPT !.start = v] /\ faults' = Append(faults, Fault(<<"start">>, v))
       \/ box.mark /\ box' = [box EXCEPT !.mark = FALSE] /\ faults' = Append(faults, Fault(<<"mark">>, 0))
    /\ step' = step + 1
Rest == Sim /\ step' = step + 1 /\ UNCHANGED <<box, faults>>
Next == Damage \/ Rest
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ reading *)
Outside == {"edge", "end", "out", "minus"}
(* what a block gives: the bytes it says it has, "bad" if that is no number of bytes; more than it has are other bytes *)
Given(b, want) == LET c == box.cap[b] IN
    CASE c = "minus" -> -1 [] c = "zero" -> 0 [] c = "less" -> Min(want, Cap[b] - 1)
      [] c = "right" -> Min(want, Cap[b]) [] c = "more" -> Min(want, Cap[b] + 1) [] OTHER -> want
Want(b) == LET s == box.size[b] IN
    CASE s = "right" -> Size[b] [] s = "less" -> Size[b] - 1 [] s = "tiny" -> Min(Size[b], 9) [] s = "more" -> Size[b] + 1 [] s = "huge" -> 2147483647
      [] s = "zero" -> 0 [] OTHER -> -1
R(how, bs) == [how |-> how, bs |-> bs]
RECURSIVE Follow(_, _, _, _)
Follow(b, left, acc, n) ==
    IF b = "none" THEN R(IF left > 0 THEN "bad" ELSE "read", acc)
    ELSE IF left = 0 THEN R("other", acc)                      \* all is read, but the chain goes on
    ELSE IF b \in Outside \/ n = 0 THEN R("bad", acc)
    ELSE IF b = "in" THEN R("other", acc)                      \* whatever is there is taken for the header of a block
    ELSE IF box.cap[b] = "noise" \/ (IF b \in Firsts THEN box.size[b] = "noise" ELSE FALSE) THEN R("other", acc)
    ELSE LET g == Given(b, left) IN
         IF g < 0 \/ (b \in Firsts /\ Want(b) < 0) THEN R("bad", acc)       \* a header that is no header
         ELSE IF g > Cap[b] THEN R("other", acc)                            \* bytes of other blocks, or none
         ELSE Follow(box.next[b], left - g, Append(acc, <<b, g>>), n - 1)
Read(first) ==
    IF first \in {"none", "minus", "zero"} THEN R("empty", <<>>)
    ELSE IF first \in Outside THEN R("bad", <<>>)
    ELSE IF first = "in" THEN R("other", <<>>)
    ELSE IF first \notin Firsts THEN R("other", <<>>)          \* the middle of a chain
    ELSE IF "noise" \in {box.size[first], box.cap[first]} THEN R("other", <<>>)     \* no number at all: left open
    ELSE IF Want(first) < 0 \/ box.cap[first] = "minus" THEN R("bad", <<>>)
    ELSE IF Want(first) = 0 THEN R("empty", <<>>)
    ELSE Follow(first, Want(first), <<>>, Cardinality(Blocks) + 1)
(* what reading the undamaged chain gives *)
RECURSIVE Right(_, _, _)
Right(b, left, acc) == IF b = "none" THEN acc ELSE Right(NextB[b], left - Min(left, Cap[b]), Append(acc, <<b, Min(left, Cap[b])>>))
Drop(bs) == SelectSeq(bs, LAMBDA x : x[2] > 0)
Verdict(first, was) ==
    LET r == Read(first) IN
    IF was = "none" THEN (IF r.how = "empty" THEN "same" ELSE IF r.how = "bad" THEN "bad" ELSE "other")
    ELSE IF r.how = "read" /\ Drop(r.bs) = Drop(Right(was, Size[was], <<>>)) THEN "same"
    ELSE IF r.how = "bad" THEN "bad" ELSE "other"
Toc == IF box.start \in {"end", "out", "minus", "in"} \/ ~box.mark THEN "bad" ELSE Verdict(TocOf, TocOf)
Header(m) == Verdict(box.h[m], HeadOf[m])
Data(m) == Verdict(box.d[m], DataOf[m])
(* A container whose list or whose headers cannot be read is none; it is kept as the file it is. *)
Kept == Toc = "bad" \/ (Toc = "same" /\ \E m \in M : Header(m) = "bad")
Unknown == Toc = "other" \/ \E m \in M : Header(m) = "other"
(* the name another member has may be the one of this member, too *)
Result == IF Kept THEN "file" ELSE IF Toc = "other" THEN "unknown" ELSE IF \E m \in M : Data(m) = "bad" THEN "error" ELSE "box"

(* ------------------------------------------------------------------ properties *)
Sound == faults = <<>> => Result = "box" /\ \A m \in M : Header(m) = "same" /\ Data(m) = "same"
(* a fault in the data of one member is no concern of the others *)
Owner(b) == CHOOSE m \in M \cup {0} : IF m = 0 THEN TRUE ELSE \E k \in {"h", "d"} : \E i \in DOMAIN Right(Chain(m, k), 1000000, <<>>) : Right(Chain(m, k), 1000000, <<>>)[i][1] = b
DataBlock(m, b) == DataOf[m] # "none" /\ \E i \in DOMAIN Right(DataOf[m], 0, <<>>) : Right(DataOf[m], 0, <<>>)[i][1] = b
InData(m, f) == (f.at[1] \in {"next", "cap", "size"} /\ DataBlock(m, f.at[2])) \/ (f.at[1] = "d" /\ f.at[2] = m)
Local == \A m \in M : (\A i \in DOMAIN faults : InData(m, faults[i])) => Toc = "same" /\ \A n \in M : Header(n) = "same" /\ (n # m => Data(n) = "same")
(* no walk is longer than there are blocks *)
Ends == \A b \in Firsts : Len(Read(b).bs) <= Cardinality(Blocks) + 1
(* what is read never has more bytes than are said, and never fewer *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1][2] + Sum(Tail(s))
Exact == \A b \in Firsts : Read(b).how = "read" => Sum(Read(b).bs) = Want(b)
Record == (Emit /\ (Len(faults) = MaxFaults \/ (Sim /\ faults # <<>>))) =>
    PrintT(ToJson([faults |-> faults, result |-> Result, header |-> [m \in M |-> Header(m)], data |-> [m \in M |-> Data(m)]]))
=============================================================================
