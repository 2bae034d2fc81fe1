----------------------------- MODULE NameFilter -----------------------------
(* Which tables a list of name patterns selects. Patterns are separated by     *)
(* spaces, tabs, commas and semicolons; * stands for any text and ? for any    *)
(* one character, letters match in either case, anything else is itself.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,        \* the tables of the database
          Alphabet,     \* characters of filters
          MaxLen, Emit

VARIABLES filter, done
vars == <<filter, done>>

Separators == {" ", "\t", ",", ";"}
Low(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "T" -> "t" [] OTHER -> c
RECURSIVE Match(_, _)
Match(p, n) == IF p = <<>> THEN n = <<>>
               ELSE IF p[1] = "*" THEN Match(Tail(p), n) \/ (n # <<>> /\ Match(p, Tail(n)))
               ELSE n # <<>> /\ (p[1] = "?" \/ Low(p[1]) = Low(n[1])) /\ Match(Tail(p), Tail(n))
RECURSIVE Patterns(_, _)
Patterns(f, cur) == IF f = <<>> THEN (IF cur = <<>> THEN {} ELSE {cur})
                    ELSE IF f[1] \in Separators THEN (IF cur = <<>> THEN {} ELSE {cur}) \cup Patterns(Tail(f), <<>>)
                    ELSE Patterns(Tail(f), Append(cur, f[1]))
Selected == {n \in Names : \E p \in Patterns(filter, <<>>) : Match(p, n)}

Init == filter = <<>> /\ done = FALSE
Type == ~done /\ Len(filter) < MaxLen /\ \E c \in Alphabet : filter' = Append(filter, c) /\ done' = FALSE
Done == ~done /\ done' = TRUE /\ UNCHANGED filter
Next == Type \/ Done
Spec == Init /\ [][Next]_vars

\* a name without wildcards selects itself, a star everything, and more patterns never select less
Itself == \A n \in Names : Match(n, n) /\ Match(<<"*">>, n)
Union == \A k \in DOMAIN filter : filter[k] \in Separators =>
    Selected = {n \in Names : \E p \in Patterns(SubSeq(filter, 1, k), <<>>) \cup Patterns(SubSeq(filter, k, Len(filter)), <<>>) : Match(p, n)}
Record == (Emit /\ done) => PrintT(ToJson([f |-> filter, names |-> Selected]))
=============================================================================
