------------------------------ MODULE Notation ------------------------------
(* Texts and byte sequences with their notations: UTF-8, UTF-16, letter case,  *)
(* hexadecimal, Base64, and the two orders of identifiers. Every notation is   *)
(* defined with a reader of its own, and reading must give the value back.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,      \* "text", "bytes", "guid" or "damaged"
          Points,    \* code points to build texts of
          Octets,    \* bytes to build byte sequences of
          Size,      \* number of elements to reach
          Random,    \* TRUE: elements are picked at random, for long values
          Emit

VARIABLES v, dmg
vars == <<v, dmg>>

Bits(n, from, len) == (n \div 2^from) % (2^len)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* ---- texts ---- *)
One8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + Bits(c, 6, 5), 128 + Bits(c, 0, 6)>>
           ELSE IF c < 65536 THEN <<224 + Bits(c, 12, 4), 128 + Bits(c, 6, 6), 128 + Bits(c, 0, 6)>>
           ELSE <<240 + Bits(c, 18, 3), 128 + Bits(c, 12, 6), 128 + Bits(c, 6, 6), 128 + Bits(c, 0, 6)>>
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + Bits(c - 65536, 10, 10), 56320 + Bits(c - 65536, 0, 10)>>
One16(c) == Flat([i \in 1..Len(Units(c)) |-> <<Units(c)[i] % 256, Units(c)[i] \div 256>>])
Utf8(s) == Flat([i \in 1..Len(s) |-> One8(s[i])])
Utf16(s) == Flat([i \in 1..Len(s) |-> One16(s[i])])
RECURSIVE Read8(_)
Read8(b) == IF b = <<>> THEN <<>>
            ELSE LET h == b[1]
                     n == IF h < 128 THEN 1 ELSE IF h < 224 THEN 2 ELSE IF h < 240 THEN 3 ELSE 4
                     c == CASE n = 1 -> h [] n = 2 -> (h - 192) * 64 + (b[2] - 128)
                            [] n = 3 -> ((h - 224) * 64 + (b[2] - 128)) * 64 + (b[3] - 128)
                            [] n = 4 -> (((h - 240) * 64 + (b[2] - 128)) * 64 + (b[3] - 128)) * 64 + (b[4] - 128)
                 IN <<c>> \o Read8(SubSeq(b, n + 1, Len(b)))
RECURSIVE Read16(_)
Read16(b) == IF b = <<>> THEN <<>>
             ELSE LET u == b[1] + 256 * b[2] IN
                  IF u >= 55296 /\ u < 56320
                  THEN <<65536 + (u - 55296) * 1024 + (b[3] + 256 * b[4] - 56320)>> \o Read16(SubSeq(b, 5, Len(b)))
                  ELSE <<u>> \o Read16(SubSeq(b, 3, Len(b)))
Mark8 == <<239, 187, 191>>
Mark16 == <<255, 254>>
StartsWith(b, m) == Len(b) >= Len(m) /\ SubSeq(b, 1, Len(m)) = m
Marked(b) == IF StartsWith(b, Mark8) THEN "utf8" ELSE IF StartsWith(b, Mark16) THEN "utf16" ELSE "none"
LowerOne(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE IF c = 1025 THEN 1105 ELSE IF c >= 1040 /\ c <= 1071 THEN c + 32 ELSE c
UpperOne(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE IF c = 1105 THEN 1025 ELSE IF c >= 1072 /\ c <= 1103 THEN c - 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerOne(s[i])]
Upper(s) == [i \in 1..Len(s) |-> UpperOne(s[i])]

(* ---- bytes ---- *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Hex(b) == Flat([i \in 1..Len(b) |-> <<Digits[(b[i] \div 16) + 1], Digits[(b[i] % 16) + 1]>>])
Digit(ch) == (CHOOSE i \in 1..16 : Digits[i] = ch) - 1
ReadHex(t) == [i \in 1..(Len(t) \div 2) |-> 16 * Digit(t[2 * i - 1]) + Digit(t[2 * i])]
Letters64 == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
               "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
               "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "+", "/">>
Group(b) == LET x == IF Len(b) > 1 THEN b[2] ELSE 0
                y == IF Len(b) > 2 THEN b[3] ELSE 0
                L(n) == Letters64[n + 1]
            IN <<L(b[1] \div 4), L((b[1] % 4) * 16 + (x \div 16)), IF Len(b) > 1 THEN L((x % 16) * 4 + (y \div 64)) ELSE "=", IF Len(b) > 2 THEN L(y % 64) ELSE "=">>
RECURSIVE Base64(_)
Base64(b) == IF b = <<>> THEN <<>> ELSE Group(SubSeq(b, 1, IF Len(b) < 3 THEN Len(b) ELSE 3)) \o Base64(SubSeq(b, 4, Len(b)))
Value64(ch) == (CHOOSE i \in 1..64 : Letters64[i] = ch) - 1
RECURSIVE Read64(_)
Read64(t) == IF t = <<>> THEN <<>>
             ELSE LET n == CASE t[3] = "=" -> 1 [] t[4] = "=" /\ t[3] # "=" -> 2 [] OTHER -> 3
                      a == Value64(t[1])
                      b == Value64(t[2])
                      c == IF n > 1 THEN Value64(t[3]) ELSE 0
                      d == IF n > 2 THEN Value64(t[4]) ELSE 0
                      o == <<a * 4 + (b \div 16), (b % 16) * 16 + (c \div 4), (c % 4) * 64 + d>>
                  IN SubSeq(o, 1, n) \o Read64(SubSeq(t, 5, Len(t)))
\* lines of w letters, separated by line breaks; 0 gives one line
RECURSIVE Lines(_, _)
Lines(t, w) == IF w = 0 \/ Len(t) <= w THEN t ELSE SubSeq(t, 1, w) \o <<"\r", "\n">> \o Lines(SubSeq(t, w + 1, Len(t)), w)

(* ---- identifiers ---- *)
Order1C == <<12, 13, 14, 15, -1, 10, 11, -1, 8, 9, -1, 0, 1, -1, 2, 3, 4, 5, 6, 7>>
OrderMS == <<3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1, 10, 11, 12, 13, 14, 15>>
Written(b, order) == Flat([i \in 1..Len(order) |-> IF order[i] = -1 THEN <<"-">> ELSE Hex(<<b[order[i] + 1]>>)])
Flats(t) == SelectSeq(t, LAMBDA ch : ch # "-")
ReadGuid(t, order) == LET h == ReadHex(Flats(t))
                          places == SelectSeq(order, LAMBDA i : i # -1)
                      IN [k \in 1..16 |-> h[CHOOSE i \in 1..16 : places[i] = k - 1]]
IsHex(ch) == \E i \in 1..16 : Digits[i] = ch
IsGuid(t) == IF Len(t) = 32 THEN \A i \in 1..32 : IsHex(t[i])
             ELSE Len(t) = 36 /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN t[i] = "-" ELSE IsHex(t[i])
Sample == [i \in 1..16 |-> (i * 37) % 256]

Init == /\ v = (IF Kind = "damaged" THEN Written(Sample, Order1C) ELSE <<>>)
        /\ dmg = 0
Elements == IF Kind = "text" THEN Points ELSE Octets
Grow == /\ Kind # "damaged" /\ Len(v) < Size
        /\ \E x \in (IF Random THEN {RandomElement({y \in Elements : Len(v) >= 0})} ELSE Elements) : v' = Append(v, x)
        /\ UNCHANGED dmg
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Damage == /\ Kind = "damaged" /\ dmg < Size
          /\ dmg' = dmg + 1
          /\ \/ \E i \in 1..Len(v) : \E c \in {"g", "-", "0", " ", "{", "/", ":"} : v[i] # c /\ v' = [v EXCEPT ![i] = c]
             \/ \E i \in 1..Len(v) : v' = Cut(v, i)
             \/ \E i \in 0..Len(v) : \E c \in {"0", "-", " "} : v' = SubSeq(v, 1, i) \o <<c>> \o SubSeq(v, i + 1, Len(v))
             \/ v' = Flats(v)
Next == Grow \/ Damage
Spec == Init /\ [][Next]_vars

TextBack == Kind = "text" => /\ Read8(Utf8(v)) = v /\ Read16(Utf16(v)) = v
                             /\ Lower(Upper(Lower(v))) = Lower(v) /\ Upper(Lower(Upper(v))) = Upper(v)
                             /\ Marked(Mark8 \o Utf8(v)) = "utf8" /\ Marked(Mark16 \o Utf16(v)) = "utf16"
BytesBack == Kind = "bytes" => /\ ReadHex(Hex(v)) = v /\ Read64(Base64(v)) = v
GuidBack == (Kind = "guid" /\ Len(v) = 16) => /\ ReadGuid(Written(v, Order1C), Order1C) = v
                                              /\ ReadGuid(Written(v, OrderMS), OrderMS) = v
                                              /\ IsGuid(Written(v, Order1C)) /\ IsGuid(Hex(v))
Out == CASE Kind = "text" -> [t |-> v, u8 |-> Utf8(v), u16 |-> Utf16(v), lo |-> Utf8(Lower(v)), up |-> Utf8(Upper(v)), m8 |-> Marked(Utf8(v)), m16 |-> Marked(Utf16(v))]
         [] Kind = "bytes" -> [b |-> v, hex |-> Hex(v), b64 |-> Base64(v), lines |-> [w \in {4, 8, 72} |-> Lines(Base64(v), w)]]
         [] Kind = "guid" -> [b |-> v, a |-> Written(v, Order1C), m |-> Written(v, OrderMS), flat |-> Hex(v)]
         [] Kind = "damaged" -> [t |-> v, ok |-> IsGuid(v), b |-> IF IsGuid(v) THEN (IF Len(v) = 32 THEN ReadHex(v) ELSE ReadGuid(v, Order1C)) ELSE <<>>]
Record == (Emit /\ (Kind = "guid" => Len(v) = 16)) => PrintT(ToJson(Out))
=============================================================================
