----------------------------- MODULE BracketText -----------------------------
(* Bracketed text ("skobka" format): the language, its reader as a state       *)
(* machine over characters, and its printer.  Characters are byte codes.       *)
(* One action per character fed to the reader (Feed) and one for the end of    *)
(* the text (Finish); a tree node is [t |-> kind, v |-> bytes, c |-> children].*)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt

CONSTANTS Chunks,    \* sequence of byte sequences the environment may feed
          MaxChunks, \* how many
          Emit       \* TRUE: print each finished text with its outcome

LB == 123  RB == 125  COMMA == 44  QUOTE == 34
WS == {32, 9, 13, 10}

Empty == 0  String == 1  Number == 2  NumberExp == 3  Guid == 4  List == 5
Binary == 6  Binary2 == 7  Link == 8  BinaryD == 9  Unknown == 10

-----------------------------------------------------------------------------
(* Classification of unquoted values. *)
Digit == 48..57
Hex == Digit \cup (65..70) \cup (97..102)
B64 == Digit \cup (65..90) \cup (97..122) \cup {43, 61, 13, 10, 47}
AllIn(s, S) == \A i \in 1..Len(s) : s[i] \in S
From(s, i) == SubSeq(s, i, Len(s))
NoMinus(s) == IF Len(s) > 0 /\ s[1] = 45 THEN Tail(s) ELSE s
IsDigits(s) == Len(s) > 0 /\ AllIn(s, Digit)
IsInt(s) == IsDigits(NoMinus(s))
(* -?d+(.?d* )?((e|E)-?d+)?  *)
IsMantissa(s) == \E k \in 1..Len(s) : IsDigits(SubSeq(s, 1, k)) /\
                    \/ k = Len(s)
                    \/ s[k + 1] = 46 /\ AllIn(From(s, k + 2), Digit)
IsExp(s) == LET u == NoMinus(s) IN
   \/ IsMantissa(u)
   \/ \E k \in 2..Len(u) : u[k] \in {69, 101} /\ IsMantissa(SubSeq(u, 1, k - 1)) /\ IsInt(From(u, k + 1))
IsGuid(s) == Len(s) = 36 /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN s[i] = 45 ELSE s[i] \in Hex
HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
TxtBase64 == <<35, 98, 97, 115, 101, 54, 52, 58>>
TxtData == <<35, 100, 97, 116, 97, 58>>
IsLink(s) == \E k \in 2..Len(s) : s[k] = 58 /\ IsDigits(SubSeq(s, 1, k - 1)) /\ Len(s) = k + 32 /\ AllIn(From(s, k + 1), Hex)
Kind(s) ==
  IF s = <<>> THEN Empty
  ELSE IF IsInt(s) THEN Number
  ELSE IF IsExp(s) THEN NumberExp
  ELSE IF IsGuid(s) THEN Guid
  ELSE IF HasPrefix(s, TxtBase64) /\ AllIn(From(s, Len(TxtBase64) + 1), B64) THEN Binary
  ELSE IF IsLink(s) THEN Link
  ELSE IF AllIn(s, B64) THEN Binary2
  ELSE IF HasPrefix(s, TxtData) /\ AllIn(From(s, Len(TxtData) + 1), B64) THEN BinaryD
  ELSE Unknown

Leaf(t, v) == [t |-> t, v |-> v, c |-> <<>>]
ListOf(c) == [t |-> List, v |-> <<>>, c |-> c]

-----------------------------------------------------------------------------
(* The reader.  st = [pst, stack, cur]: stack is the sequence of open lists,   *)
(* each a sequence of finished children; the first is the text itself.         *)
Start == [pst |-> "value", stack |-> <<(<<>>)>>, cur |-> <<>>]
Dead == [pst |-> "reject", stack |-> <<>>, cur |-> <<>>]

AddTo(stk, node) == [stk EXCEPT ![Len(stk)] = Append(@, node)]
Close(stk) == LET n == Len(stk) IN
   [SubSeq(stk, 1, n - 1) EXCEPT ![n - 1] = Append(@, ListOf(stk[n]))]

CloseState(st, stk) == IF Len(stk) = 1 THEN Dead ELSE [pst |-> "delim", stack |-> Close(stk), cur |-> <<>>]

AfterLeaf(st, node, ch) ==
   CASE ch = COMMA -> [pst |-> "value", stack |-> AddTo(st.stack, node), cur |-> <<>>]
     [] ch = RB -> CloseState(st, AddTo(st.stack, node))
     [] ch \in WS -> [pst |-> "delim", stack |-> AddTo(st.stack, node), cur |-> <<>>]
     [] OTHER -> Dead

Feed(st, ch) ==
  CASE st.pst = "reject" -> Dead
    [] st.pst = "value" ->
        CASE ch \in WS -> st
          [] ch = QUOTE -> [st EXCEPT !.pst = "string", !.cur = <<>>]
          [] ch = LB -> [st EXCEPT !.stack = Append(@, <<>>)]
          [] ch = RB -> CloseState(st, IF st.stack[Len(st.stack)] = <<>> THEN st.stack
                                       ELSE AddTo(st.stack, Leaf(Empty, <<>>)))
          [] ch = COMMA -> [st EXCEPT !.stack = AddTo(@, Leaf(Empty, <<>>))]
          [] OTHER -> [st EXCEPT !.pst = "plain", !.cur = <<ch>>]
    [] st.pst = "delim" ->
        CASE ch \in WS -> st
          [] ch = COMMA -> [st EXCEPT !.pst = "value"]
          [] ch = RB -> CloseState(st, st.stack)
          [] OTHER -> Dead
    [] st.pst = "string" -> IF ch = QUOTE THEN [st EXCEPT !.pst = "quote"] ELSE [st EXCEPT !.cur = Append(@, ch)]
    [] st.pst = "quote" -> IF ch = QUOTE THEN [st EXCEPT !.pst = "string", !.cur = Append(@, ch)]
                           ELSE AfterLeaf(st, Leaf(String, st.cur), ch)
    [] st.pst = "plain" ->
        IF ch \in {COMMA, RB} THEN
           IF Kind(st.cur) = Unknown THEN Dead ELSE AfterLeaf(st, Leaf(Kind(st.cur), st.cur), ch)
        ELSE [st EXCEPT !.cur = Append(@, ch)]

(* End of the text.  An unquoted value of unknown form at the very end of the text is    *)
(* reported as an error by the reader but kept in the tree: outcome "flagged".           *)
Reject == [res |-> "reject"]
Finish(st) ==
  LET top == Len(st.stack) = 1 IN
  CASE st.pst = "plain" /\ top -> [res |-> IF Kind(st.cur) = Unknown THEN "flagged" ELSE "ok",
                                   tree |-> ListOf(Append(st.stack[1], Leaf(Kind(st.cur), st.cur)))]
    [] st.pst = "quote" /\ top -> [res |-> "ok", tree |-> ListOf(Append(st.stack[1], Leaf(String, st.cur)))]
    [] st.pst = "delim" /\ top -> [res |-> "ok", tree |-> ListOf(st.stack[1])]
    [] OTHER -> Reject

Parse(s) == Finish(FoldLeft(Feed, Start, s))

-----------------------------------------------------------------------------
(* The printer. *)
CRLF == <<13, 10>>
RECURSIVE DoubleQuotes(_)
DoubleQuotes(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<s[1]>>) \o DoubleQuotes(Tail(s))
RECURSIVE PrintNode(_, _), PrintItems(_, _, _)
PrintNode(acc, n) ==
  IF n.t = List THEN
     LET a == (IF acc = <<>> THEN acc ELSE acc \o CRLF) \o <<LB>>
         b == PrintItems(a, n.c, 1)
     IN (IF n.c # <<>> /\ n.c[Len(n.c)].t = List THEN b \o CRLF ELSE b) \o <<RB>>
  ELSE IF n.t = String THEN acc \o <<QUOTE>> \o DoubleQuotes(n.v) \o <<QUOTE>>
  ELSE acc \o n.v
PrintItems(acc, c, i) ==
  IF i > Len(c) THEN acc
  ELSE LET a == PrintNode(acc, c[i]) IN PrintItems(IF i < Len(c) THEN Append(a, COMMA) ELSE a, c, i + 1)
Printed(tree) == PrintNode(<<>>, tree)

-----------------------------------------------------------------------------
(* The transition system: an environment feeding chunks to the reader. *)
VARIABLES text, n, st
vars == <<text, n, st>>
Init == text = <<>> /\ n = 0 /\ st = Start
FeedChunk(k) == /\ n < MaxChunks
                /\ text' = text \o Chunks[k]
                /\ n' = n + 1
                /\ st' = FoldLeft(Feed, st, Chunks[k])
Next == \E k \in 1..Len(Chunks) : FeedChunk(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design. *)
RECURSIVE WellFormed(_)
WellFormed(nd) == /\ nd.t # List => nd.c = <<>>
                  /\ nd.t \notin {String, List, Empty} => nd.v # <<>>
                  /\ nd.t \in {List, Empty} => nd.v = <<>>
                  /\ (nd.t = List /\ Len(nd.c) = 1) => nd.c[1].t # Empty
                  /\ \A i \in 1..Len(nd.c) : WellFormed(nd.c[i])
Out == Finish(st)
TreeWellFormed == Out.res = "ok" => WellFormed(Out.tree)
\* the printed whole tree parses back to a text holding exactly that tree
RoundTrip == Out.res = "ok" => LET r == Parse(Printed(Out.tree)) IN r.res = "ok" /\ r.tree = ListOf(<<Out.tree>>)
IncrementalAgrees == Out = Parse(text)
Balanced == st.pst # "reject" => Len(st.stack) >= 1
Record == Emit => PrintT(ToJson([x |-> text, o |-> Out]))
=============================================================================
