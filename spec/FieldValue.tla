----------------------------- MODULE FieldValue -----------------------------
(* The values of a field, their stored form, their text and their sort key.   *)
(* A value is [null, neg, s]; s lists bytes, digits, characters, version      *)
(* numbers or date components, according to the type of the field.            *)
(* Texts are sequences of code points, stored forms sequences of bytes.       *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Decls,        \* [t, len, prec, null, g]; g is how 16 bytes are shown: "hex", "1c", "ms"
          Bytes, Digits, Chars, Ints, Years, Smalls,
          Pairs,        \* "all": w is any value; "near": w is v with changes
          NegZero,      \* whether a zero with a negative sign is a stored value (it equals zero)
      Emit

VARIABLES d, v, w, phase
vars == <<d, v, w, phase>>

\* ------------------------------------------------------------------ values
RECURSIVE Units(_)
Units(s) == IF s = <<>> THEN 0 ELSE (IF s[1] > 65535 THEN 2 ELSE 1) + Units(Tail(s))
Alphabet(k) == CASE d.t \in {"B", "VB"} -> Bytes [] d.t = "L" -> {0, 1} [] d.t = "N" -> Digits
                 [] d.t \in {"NC", "NVC"} -> {c \in Chars : Units(<<c>>) + Units(k) <= d.len}
                 [] d.t \in {"RV", "V8"} -> Ints
                 [] d.t = "DT" -> (CASE Len(k) = 0 -> Years [] Len(k) = 1 -> {x \in Smalls : x >= 1 /\ x <= 12}
                        [] Len(k) = 2 -> {x \in Smalls : x >= 1 /\ x <= 28} [] Len(k) = 3 -> {x \in Smalls : x <= 23} [] OTHER -> {x \in Smalls : x <= 59})
Complete(k) == CASE d.t \in {"B", "N"} -> Len(k) = d.len [] d.t = "L" -> Len(k) = 1 [] d.t = "NC" -> Units(k) = d.len
                 [] d.t = "NVC" -> Units(k) <= d.len [] d.t = "VB" -> Len(k) <= d.len [] d.t = "RV" -> Len(k) = 4 [] d.t = "V8" -> Len(k) = 2
                 [] d.t = "DT" -> Len(k) = 6
Full(k) == CASE d.t = "NVC" -> Units(k) = d.len [] d.t = "VB" -> Len(k) = d.len [] OTHER -> Complete(k)
Zero(s) == \A i \in DOMAIN s : s[i] = 0
Start(neg) == [null |-> FALSE, neg |-> neg, s |-> <<>>]
Null == [null |-> TRUE, neg |-> FALSE, s |-> <<>>]
WellFormed(x) == x.null \/ (Complete(x.s) /\ (NegZero \/ ~(x.neg /\ Zero(x.s))))

\* ------------------------------------------------------------------ text
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexByte(b) == <<Hex(b \div 16), Hex(b % 16)>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Order1C == <<12, 13, 14, 15, -1, 10, 11, -1, 8, 9, -1, 0, 1, -1, 2, 3, 4, 5, 6, 7>>
OrderMS == <<3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1, 10, 11, 12, 13, 14, 15>>
Ident(s, o) == Flat([i \in DOMAIN o |-> IF o[i] = -1 THEN <<45>> ELSE HexByte(s[o[i] + 1])])
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
SDec(n) == IF n = -2147483647 - 1 THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>> ELSE IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)
TwoD(n) == <<48 + (n \div 10), 48 + (n % 10)>>
FourD(n) == TwoD(n \div 100) \o TwoD(n % 100)
RECURSIVE NoLead(_)
NoLead(s) == IF s = <<>> THEN <<>> ELSE IF s[1] = 0 THEN NoLead(Tail(s)) ELSE s
RECURSIVE NoTrail(_)
NoTrail(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] = 0 THEN NoTrail(SubSeq(s, 1, Len(s) - 1)) ELSE s
ToText(s) == [i \in DOMAIN s |-> 48 + s[i]]
IntPart(s) == SubSeq(s, 1, d.len - d.prec)
FracPart(s) == SubSeq(s, d.len - d.prec + 1, d.len)
Whole(s) == LET i == NoLead(IntPart(s)) IN ToText(IF i = <<>> THEN <<0>> ELSE i)
Text(x) ==
  IF x.null THEN <<123, 78, 85, 76, 76, 125>>      \* {NULL}
  ELSE CASE d.t = "B" -> (CASE d.g = "1c" -> Ident(x.s, Order1C) [] d.g = "ms" -> Ident(x.s, OrderMS) [] OTHER -> Flat([i \in DOMAIN x.s |-> HexByte(x.s[i])]))
         [] d.t = "VB" -> Flat([i \in DOMAIN x.s |-> HexByte(x.s[i])])
         [] d.t = "L" -> IF x.s[1] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
         [] d.t = "N" -> LET f == NoTrail(FracPart(x.s)) IN
                (IF x.neg THEN <<45>> ELSE <<>>) \o Whole(x.s) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o ToText(f))
         [] d.t \in {"NC", "NVC"} -> x.s
         [] d.t = "RV" -> SDec(x.s[1]) \o <<58>> \o SDec(x.s[2]) \o <<58>> \o SDec(x.s[3]) \o <<58>> \o SDec(x.s[4])
         [] d.t = "V8" -> SDec(x.s[1]) \o <<58>> \o SDec(x.s[2])
         [] d.t = "DT" -> TwoD(x.s[3]) \o <<46>> \o TwoD(x.s[2]) \o <<46>> \o FourD(x.s[1]) \o <<32>> \o TwoD(x.s[4]) \o <<58>> \o TwoD(x.s[5]) \o <<58>> \o TwoD(x.s[6])
\* the text in an XML document: markup and line ends as references, dates in the order of XML
Amp(name) == <<38>> \o name \o <<59>>
Escape1(c) == CASE c = 38 -> Amp(<<97, 109, 112>>) [] c = 60 -> Amp(<<108, 116>>) [] c = 62 -> Amp(<<103, 116>>) [] c = 39 -> Amp(<<97, 112, 111, 115>>)
              [] c = 34 -> Amp(<<113, 117, 111, 116>>) [] c = 13 -> Amp(<<35, 49, 51>>) [] c < 32 /\ c # 9 /\ c # 10 -> <<63>> [] OTHER -> <<c>>
Escape(s) == Flat([i \in DOMAIN s |-> Escape1(s[i])])
Xml(x) == IF x.null THEN <<>>
          ELSE CASE d.t = "DT" -> FourD(x.s[1]) \o <<45>> \o TwoD(x.s[2]) \o <<45>> \o TwoD(x.s[3]) \o <<84>> \o TwoD(x.s[4]) \o <<58>> \o TwoD(x.s[5]) \o <<58>> \o TwoD(x.s[6])
                 [] d.t \in {"NC", "NVC"} -> Escape(x.s)
                 [] OTHER -> Text(x)
\* another spelling of the same value that may be entered
Upper(c) == IF c >= 97 /\ c <= 102 THEN c - 32 ELSE c
Alt(x) == IF x.null THEN <<>>
          ELSE IF d.t = "N" /\ d.prec > 0 THEN (IF x.neg THEN <<45>> ELSE <<>>) \o Whole(x.s) \o <<46>> \o ToText(FracPart(x.s))
          ELSE IF d.t = "B" THEN [i \in DOMAIN Text(x) |-> Upper(Text(x)[i])]
          ELSE Text(x)

\* ------------------------------------------------------------------ entered text to value
Enterable == d.t \in {"B", "L", "N", "NC", "NVC", "DT"}
UnHex(c) == IF c <= 57 THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
NoDash(t) == SelectSeq(t, LAMBDA c : c # 45)
PairAt(t, i) == 16 * UnHex(t[2 * i - 1]) + UnHex(t[2 * i])
RECURSIVE Pos(_, _)
Pos(o, i) == IF o[1] = i THEN 1 ELSE (IF o[1] = -1 THEN 0 ELSE 1) + Pos(Tail(o), i)
UnIdent(t, o) == LET h == NoDash(t) IN [i \in 1..16 |-> PairAt(h, Pos(o, i - 1))]
Num2(t, i) == 10 * (t[i] - 48) + t[i + 1] - 48
Dot(t) == IF \E i \in DOMAIN t : t[i] = 46 THEN CHOOSE i \in DOMAIN t : t[i] = 46 ELSE Len(t) + 1
Pad(n) == [i \in 1..n |-> 0]
DigitsOf(t) == [i \in DOMAIN t |-> t[i] - 48]
Enter(t) ==
  LET V(n, s) == [null |-> FALSE, neg |-> n, s |-> s] IN
  CASE d.t = "B" -> V(FALSE, CASE d.g = "1c" -> UnIdent(t, Order1C) [] d.g = "ms" -> UnIdent(t, OrderMS) [] OTHER -> [i \in 1..(Len(t) \div 2) |-> PairAt(t, i)])
    [] d.t = "L" -> V(FALSE, <<IF t = <<116, 114, 117, 101>> THEN 1 ELSE 0>>)
    [] d.t = "N" -> LET neg == t # <<>> /\ t[1] = 45
                        u == IF neg THEN Tail(t) ELSE t
                        i == DigitsOf(SubSeq(u, 1, Dot(u) - 1))
                        f == IF Dot(u) > Len(u) THEN <<>> ELSE DigitsOf(SubSeq(u, Dot(u) + 1, Len(u)))
                        il == d.len - d.prec
                        i2 == IF Len(i) > il THEN SubSeq(i, Len(i) - il + 1, Len(i)) ELSE Pad(il - Len(i)) \o i
                    IN V(neg, i2 \o f \o Pad(d.prec - Len(f)))
    [] d.t \in {"NC", "NVC"} -> V(FALSE, t)
    [] d.t = "DT" -> V(FALSE, <<100 * Num2(t, 7) + Num2(t, 9), Num2(t, 4), Num2(t, 1), Num2(t, 12), Num2(t, 15), Num2(t, 18)>>)

\* ------------------------------------------------------------------ stored form
U16(c) == IF c > 65535 THEN LET y == c - 65536 IN <<(55296 + (y \div 1024)) % 256, (55296 + (y \div 1024)) \div 256, (56320 + (y % 1024)) % 256, (56320 + (y % 1024)) \div 256>>
          ELSE <<c % 256, c \div 256>>
RECURSIVE Pack(_)
Pack(n) == IF n = <<>> THEN <<>> ELSE IF Len(n) = 1 THEN <<16 * n[1]>> ELSE <<16 * n[1] + n[2]>> \o Pack(SubSeq(n, 3, Len(n)))
Int4(n) == LET m == IF n < 0 THEN n + 2147483647 + 1 ELSE n IN <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, (m \div 16777216) + (IF n < 0 THEN 128 ELSE 0)>>
Int2(n) == <<n % 256, n \div 256>>
Spaces(n) == Flat([i \in 1..n |-> <<32, 0>>])
Dig2(n) == <<n \div 10, n % 10>>
Body(x) == CASE d.t \in {"B", "L"} -> x.s
             [] d.t = "VB" -> Int2(Len(x.s)) \o x.s \o Pad(d.len - Len(x.s))
             [] d.t = "N" -> Pack(<<IF x.neg THEN 0 ELSE 1>> \o x.s)
             [] d.t = "NC" -> Flat([i \in DOMAIN x.s |-> U16(x.s[i])])
             [] d.t = "NVC" -> Int2(Units(x.s)) \o Flat([i \in DOMAIN x.s |-> U16(x.s[i])]) \o Spaces(d.len - Units(x.s))
             [] d.t \in {"RV", "V8"} -> Flat([i \in DOMAIN x.s |-> Int4(x.s[i])])
             [] d.t = "DT" -> Pack(Dig2(x.s[1] \div 100) \o Dig2(x.s[1] % 100) \o Flat([i \in 1..5 |-> Dig2(x.s[i + 1])]))
BodySize == CASE d.t = "B" -> d.len [] d.t = "L" -> 1 [] d.t = "N" -> (d.len + 2) \div 2 [] d.t = "NC" -> 2 * d.len [] d.t = "NVC" -> 2 * d.len + 2
              [] d.t = "RV" -> 16 [] d.t = "V8" -> 8 [] d.t = "DT" -> 7 [] d.t = "VB" -> d.len + 2
Stored(x) == IF ~d.null THEN Body(x) ELSE IF x.null THEN Pad(1 + BodySize) ELSE <<1>> \o Body(x)

\* ------------------------------------------------------------------ order
Sortable == d.t \in {"B", "L", "N", "DT"}
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
Norm(x) == IF x.neg /\ Zero(x.s) THEN [x EXCEPT !.neg = FALSE] ELSE x
Lt(p, q) == LET a == Norm(p) b == Norm(q) IN IF a.null \/ b.null THEN a.null /\ ~b.null
            ELSE IF a.neg # b.neg THEN a.neg
            ELSE IF a.neg THEN LexLt(b.s, a.s) ELSE LexLt(a.s, b.s)
\* the key: ten's complement for negative numbers, the stored form otherwise
RECURSIVE Compl(_, _)
Compl(s, carry) == IF s = <<>> THEN <<>> ELSE LET c == s[Len(s)] r == SubSeq(s, 1, Len(s) - 1) IN
    IF carry THEN Compl(r, TRUE) \o <<9 - c>> ELSE IF c = 0 THEN Compl(r, FALSE) \o <<0>> ELSE Compl(r, TRUE) \o <<10 - c>>
Key(y) == LET x == Norm(y) IN IF x.null THEN <<0>> \o Pad(BodySize)
          ELSE (IF d.null THEN <<1>> ELSE <<>>) \o (IF d.t = "N" THEN Pack(<<IF x.neg THEN 0 ELSE 1>> \o (IF x.neg THEN Compl(x.s, FALSE) ELSE x.s)) ELSE Body(x))

\* ------------------------------------------------------------------ transitions: build v, then w
Begin(x) == \E n \in (IF d.t = "N" THEN BOOLEAN ELSE {FALSE}) : x = Start(n)
Init == /\ d \in Decls /\ w = Null
        /\ v \in {Start(FALSE)} \cup (IF d.t = "N" THEN {Start(TRUE)} ELSE {}) \cup (IF d.null THEN {Null} ELSE {})
        /\ phase = 0
Grow == /\ phase = 0 /\ ~v.null /\ ~Full(v.s)
        /\ \E e \in Alphabet(v.s) : v' = [v EXCEPT !.s = Append(@, e)]
        /\ UNCHANGED <<d, w, phase>>
Second == /\ phase = 0 /\ WellFormed(v)
          /\ phase' = 1
          /\ w' \in (IF Pairs = "all" THEN {Start(FALSE)} \cup (IF d.t = "N" THEN {Start(TRUE)} ELSE {}) \cup (IF d.null THEN {Null} ELSE {})
                     ELSE {v} \cup (IF d.null THEN {Null} ELSE {}) \cup (IF d.t = "N" /\ ~v.null THEN {[v EXCEPT !.neg = ~@]} ELSE {}))
          /\ UNCHANGED <<d, v>>
GrowW == /\ phase = 1 /\ Pairs = "all" /\ ~w.null /\ ~Full(w.s)
         /\ \E e \in Alphabet(w.s) : w' = [w EXCEPT !.s = Append(@, e)]
         /\ UNCHANGED <<d, v, phase>>
Change == /\ phase = 1 /\ Pairs = "near" /\ ~w.null /\ ~v.null /\ Len(w.s) > 0
          /\ \E i \in {1, Len(w.s), (Len(w.s) + 1) \div 2} : \E e \in Alphabet(SubSeq(w.s, 1, i - 1)) : /\ w' = [w EXCEPT !.s[i] = e]
                                      /\ WellFormed(w')
          /\ phase' = 2 /\ UNCHANGED <<d, v>>
Done == /\ phase \in {1, 2} /\ WellFormed(w) /\ phase' = 3 /\ UNCHANGED <<d, v, w>>
Next == Grow \/ Second \/ GrowW \/ Change \/ Done
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties of the model
Faithful == phase = 3 => ((Text(v) = Text(w)) <=> (v = w))
ReadBack == phase = 3 /\ Enterable /\ ~v.null => Enter(Text(v)) = v /\ Enter(Alt(v)) = v
Width == phase = 3 => /\ Len(Stored(v)) = BodySize + (IF d.null THEN 1 ELSE 0)
                      /\ (Sortable => Len(Key(v)) = Len(Stored(v)))
NoMarkup == phase = 3 => \A i \in DOMAIN Xml(v) : Xml(v)[i] \notin {60, 62, 34, 39, 13} /\ (Xml(v)[i] >= 32 \/ Xml(v)[i] \in {9, 10})
XmlFaithful == (phase = 3 /\ ~v.null /\ ~w.null /\ (\A i \in DOMAIN v.s : v.s[i] >= 32) /\ d.t \in {"NC", "NVC"}) => ((Xml(v) = Xml(w)) => (v = w \/ \E i \in DOMAIN w.s : w.s[i] < 32))
KeyOrder == phase = 3 /\ Sortable => (LexLt(Key(v), Key(w)) <=> Lt(v, w)) /\ ((Key(v) = Key(w)) <=> Norm(v) = Norm(w))
Record == (Emit /\ phase = 3) => PrintT(ToJson([d |-> d, vn |-> v.null, wn |-> w.null, sv |-> Stored(v), sw |-> Stored(w), tv |-> Text(v), tw |-> Text(w), xv |-> Xml(v), xw |-> Xml(w), alt |-> Alt(v),
    ent |-> Enterable /\ Norm(v) = v, sort |-> Sortable, ord |-> IF Norm(v) = Norm(w) THEN 0 ELSE IF Sortable /\ Lt(v, w) THEN -1 ELSE 1]))
=============================================================================
