----------------------------- MODULE FieldEntry -----------------------------
(* Entering texts that need not be the canonical text of a value: nothing at   *)
(* all, a part of a value, too much, other words. A text is typed character by  *)
(* character or is a canonical text with its end cut off or something added.    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Decls, Bytes, Digits, Chars, Ints, Years, Smalls,
          Tails,       \* what may be added to a canonical text
          MaxTyped,    \* longest typed text
          Emit
VARIABLES d, v, t, phase
vars == <<d, v, t, phase>>
FV == INSTANCE FieldValue WITH w <- v, Pairs <- "near", NegZero <- FALSE

\* ------------------------------------------------------------------ the value a text stands for
Val(n, s) == [null |-> FALSE, neg |-> n, s |-> s]
Empty == CASE d.t = "DT" -> Val(FALSE, <<1, 1, 1, 0, 0, 0>>)
           [] d.t = "L" -> Val(FALSE, <<0>>)
           [] d.t \in {"B", "N"} -> Val(FALSE, FV!Pad(d.len))
           [] d.t = "NC" -> Val(FALSE, [i \in 1..d.len |-> 32])
           [] d.t = "NVC" -> Val(FALSE, <<>>)
Signed(x) == x # <<>> /\ x[1] = 45
Unsigned(x) == IF Signed(x) THEN Tail(x) ELSE x
IntText(x) == SubSeq(Unsigned(x), 1, FV!Dot(Unsigned(x)) - 1)
FracText(x) == LET u == Unsigned(x) IN IF FV!Dot(u) > Len(u) THEN <<>> ELSE SubSeq(u, FV!Dot(u) + 1, Len(u))
Left == d.len - d.prec       \* digits before the point
Number == LET i == FV!DigitsOf(IntText(t)) f == FV!DigitsOf(FracText(t))
              cut == IF Len(f) > d.prec THEN SubSeq(f, 1, d.prec) ELSE f \o FV!Pad(d.prec - Len(f))
              whole == FV!NoLead(i)
          IN Val(Signed(t), IF Len(whole) > Left THEN [k \in 1..Left |-> 9] \o cut ELSE FV!Pad(Left - Len(whole)) \o whole \o cut)
RECURSIVE CutTo(_, _)      \* the longest beginning of at most n units
CutTo(s, n) == IF FV!Units(s) <= n THEN s ELSE CutTo(SubSeq(s, 1, Len(s) - 1), n)
FullLen == IF d.t = "DT" THEN 19 ELSE IF d.g \in {"1c", "ms"} THEN 36 ELSE 2 * d.len
Stands ==
  CASE d.t = "L" -> Val(FALSE, <<IF t = <<116, 114, 117, 101>> THEN 1 ELSE 0>>)
    [] d.t = "N" -> Number
    [] d.t = "NVC" -> Val(FALSE, CutTo(t, d.len))
    [] d.t = "NC" -> LET c == CutTo(t, d.len) IN Val(FALSE, c \o [i \in 1..(d.len - FV!Units(c)) |-> 32])
    [] d.t \in {"B", "DT"} -> IF Len(t) < FullLen THEN Empty ELSE FV!Enter(SubSeq(t, 1, FullLen))
\* an identifier is refused unless it is complete or left out
Refused == d.t = "B" /\ d.g = "1c" /\ Len(t) # 36 /\ t # <<>>
\* texts that mean nothing definite: a character cut in half, digits with zeros in front that do not fit, a zero with a sign
Definite == CASE d.t \in {"NC", "NVC"} -> LET c == CutTo(t, d.len) IN Len(c) = Len(t) \/ FV!Units(c) = d.len
              [] d.t = "N" -> /\ (Len(IntText(t)) <= Left \/ Len(FV!NoLead(FV!DigitsOf(IntText(t)))) > Left \/ (Left = 0 /\ IntText(t) = <<48>>))
                              /\ ~(Signed(t) /\ FV!Zero(Number.s))
              [] OTHER -> TRUE

\* ------------------------------------------------------------------ transitions
Typed == IF d.t = "N" THEN {48, 49, 57, 45, 46} ELSE IF d.t = "L" THEN {116, 114, 117, 101, 102, 48, 49} ELSE Chars
CanType(c) == d.t # "N" \/ (IF c = 45 THEN t = <<>> ELSE IF c = 46 THEN \A i \in DOMAIN t : t[i] # 46 ELSE TRUE)
Init == /\ d \in Decls /\ t = <<>> /\ phase \in {"value", "typing"}
        /\ v \in {FV!Start(FALSE)} \cup (IF d.t = "N" THEN {FV!Start(TRUE)} ELSE {})
        /\ (phase = "typing" => d.t \in {"N", "L", "NC", "NVC"} /\ ~v.neg)
Grow == /\ phase = "value" /\ ~FV!Full(v.s) /\ \E e \in FV!Alphabet(v.s) : v' = [v EXCEPT !.s = Append(@, e)]
        /\ UNCHANGED <<d, t, phase>>
Show == /\ phase = "value" /\ FV!WellFormed(v) /\ phase' = "shown" /\ t' = FV!Text(v) /\ UNCHANGED <<d, v>>
Cut == /\ phase = "shown" /\ d.t \in {"DT", "B"} /\ \E n \in 0..Len(t) : t' = SubSeq(t, 1, n) /\ phase' = "done" /\ UNCHANGED <<d, v>>
Add == /\ phase = "shown" /\ d.t \in {"DT", "B", "NC", "NVC"} /\ \E x \in Tails : t' = t \o x /\ phase' = "done" /\ UNCHANGED <<d, v>>
Type == /\ phase = "typing" /\ Len(t) < MaxTyped /\ \E c \in Typed : CanType(c) /\ t' = Append(t, c)
        /\ UNCHANGED <<d, v, phase>>
Stop == phase \in {"typing", "shown"} /\ phase' = "done" /\ UNCHANGED <<d, v, t>>
Next == Grow \/ Show \/ Cut \/ Add \/ Type \/ Stop
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties of the model
Fits == phase = "done" /\ Definite => FV!WellFormed(Stands) /\ Len(FV!Body(Stands)) = FV!BodySize
\* what was stored and is shown again stands for itself
Settles == phase = "done" /\ Definite => FV!Enter(FV!Text(Stands)) = Stands
Record == (Emit /\ phase = "done" /\ Definite) => PrintT(ToJson([d |-> d, t |-> t, refused |-> Refused, s |-> FV!Stored(Stands), p |-> FV!Text(Stands)]))
=============================================================================
