------------------------------ MODULE LeafPack ------------------------------
(* Packing a list of (record, key) pairs into a leaf page of an index.        *)
(* Each entry becomes a slot (record number, left, right), where left is the  *)
(* number of leading bytes shared with the previous key and right the number  *)
(* of trailing zero bytes, and the bytes between go to the key area, which    *)
(* grows down from the end of the page.                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json

CONSTANTS Len0s,       \* key lengths
          KBytes, Recs, MaxN,              \* explicit lists
          Patterns,    \* [a, c, w, z, step, r0, rs]: prefix of a bytes c, counter of w bytes, z zeros
          Room,        \* set of page sizes minus the header
          Emit

VARIABLES L, list, pat, n, room, phase
vars == <<L, list, pat, n, room, phase>>

RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------------ explicit lists
RECURSIVE Zeros(_)
Zeros(k) == IF k = <<>> THEN 0 ELSE IF k[Len(k)] # 0 THEN 0 ELSE 1 + Zeros(SubSeq(k, 1, Len(k) - 1))
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ a[1] # b[1] THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
LeftOf(s, i) == IF i = 1 THEN 0 ELSE Common(s[i].k, s[i - 1].k)
RightOf(s, i) == Smaller(Zeros(s[i].k), L - LeftOf(s, i))
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))

Slots(s) == [i \in DOMAIN s |-> [r |-> s[i].r, left |-> LeftOf(s, i), right |-> RightOf(s, i)]]
RECURSIVE Area(_, _)      \* the key area, later entries first
Area(s, i) == IF i > Len(s) THEN <<>> ELSE Area(s, i + 1) \o SubSeq(s[i].k, LeftOf(s, i) + 1, L - RightOf(s, i))
RECURSIVE Unpack(_, _, _, _)
Unpack(slots, area, i, prev) == IF i > Len(slots) THEN <<>>
   ELSE LET m == L - slots[i].left - slots[i].right
            k == SubSeq(prev, 1, slots[i].left) \o SubSeq(area, Len(area) - m + 1, Len(area)) \o [j \in 1..slots[i].right |-> 0]
        IN <<[r |-> slots[i].r, k |-> k]>> \o Unpack(slots, SubSeq(area, 1, Len(area) - m), i + 1, k)
MaxR(s) == FoldLeft(LAMBDA acc, e : Larger(acc, e.r), 0, s)
RecBytes(mr) == (Bits(mr) + 2 * Bits(L) + 7) \div 8
KeyBytes(s) == FoldLeft(LAMBDA acc, i : acc + L - LeftOf(s, i) - RightOf(s, i), 0, [i \in 1..Len(s) |-> i])
Used(s) == RecBytes(MaxR(s)) * Len(s) + KeyBytes(s)

\* ------------------------------------------------------------------ patterned lists
RECURSIVE Dig(_, _)
Dig(x, w) == IF w = 0 THEN <<>> ELSE Append(Dig(x \div 256, w - 1), x % 256)
Cnt(i) == (i - 1) * pat.step
PRec(i) == pat.r0 + (i - 1) * pat.rs
PKey(i) == [j \in 1..pat.a |-> pat.c] \o Dig(Cnt(i), pat.w) \o [j \in 1..pat.z |-> 0]
\* the same numbers without building the keys
RECURSIVE CommonDigits(_, _, _)
CommonDigits(x, y, w) == IF x = y THEN w ELSE CommonDigits(x \div 256, y \div 256, w - 1)
RECURSIVE ZeroDigits(_, _)
ZeroDigits(x, w) == IF w = 0 THEN 0 ELSE IF x % 256 # 0 THEN 0 ELSE 1 + ZeroDigits(x \div 256, w - 1)
PLeft(i) == IF i = 1 THEN 0 ELSE IF Cnt(i) = Cnt(i - 1) THEN L ELSE pat.a + CommonDigits(Cnt(i), Cnt(i - 1), pat.w)
PZeros(i) == LET zd == ZeroDigits(Cnt(i), pat.w) IN pat.z + zd + (IF zd = pat.w /\ pat.c = 0 THEN pat.a ELSE 0)
PRight(i) == Smaller(PZeros(i), L - PLeft(i))
PKeyBytes(m) == FoldLeft(LAMBDA acc, i : acc + L - PLeft(i) - PRight(i), 0, [i \in 1..m |-> i])
PUsed(m) == RecBytes(Larger(PRec(1), PRec(m))) * m + PKeyBytes(m)
RECURSIVE Search(_, _)     \* the largest number of entries that fits, between lo (fits) and hi (does not)
Search(lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF PUsed(m) <= room THEN Search(m, hi) ELSE Search(lo, m)
Limit(p) == IF p.step = 0 THEN 70000 ELSE IF p.w >= 3 THEN Smaller(70000, 2000000000 \div p.step) ELSE Smaller(70000, (256 ^ p.w) \div p.step)
Upper == Smaller(Limit(pat), Smaller(room + 1, IF pat.rs < 0 THEN pat.r0 \div (-pat.rs) ELSE 70000))

Init == /\ L \in Len0s \cup {p.a + p.w + p.z : p \in Patterns} /\ room \in Room
        /\ pat \in {p \in Patterns : p.a + p.w + p.z = L} \cup (IF L \in Len0s THEN {[none |-> TRUE]} ELSE {})
        /\ list = <<>> /\ n = 0 /\ phase = 0
Explicit == "none" \in DOMAIN pat
Add == /\ Explicit /\ phase = 0 /\ Len(list) < MaxN
       /\ \E k \in [1..L -> KBytes], r \in Recs :
            /\ list # <<>> => LexLe(list[Len(list)].k, k)
            /\ \A i \in DOMAIN list : list[i].r # r
            /\ list' = Append(list, [k |-> k, r |-> r])
       /\ UNCHANGED <<L, pat, n, room, phase>>
Pick == /\ ~Explicit /\ phase = 0
        /\ LET b == IF PUsed(Upper) <= room THEN Upper ELSE Search(0, Upper) IN
             n' \in {m \in {1, 2, b - 1, b, b + 1, b + 7} : m >= 1 /\ m <= Upper}
        /\ phase' = 1 /\ UNCHANGED <<L, list, pat, room>>
End == Explicit /\ phase = 0 /\ list # <<>> /\ phase' = 2 /\ UNCHANGED <<L, list, pat, n, room>>
Next == Add \/ Pick \/ End
Spec == Init /\ [][Next]_vars

NothingLost == Explicit /\ phase = 0 => Unpack(Slots(list), Area(list, 1), 1, [j \in 1..L |-> 0]) = list
NoOverlap == Explicit /\ phase = 0 => \A i \in DOMAIN list : LeftOf(list, i) + RightOf(list, i) <= L
AreaLength == Explicit /\ phase = 0 => Len(Area(list, 1)) = KeyBytes(list)
ShortForm == (~Explicit /\ phase = 1 /\ n <= 300 /\ L <= 20) => LET s == [i \in 1..n |-> [k |-> PKey(i), r |-> PRec(i)]] IN
     \A i \in 1..n : PLeft(i) = LeftOf(s, i) /\ PRight(i) = RightOf(s, i)
Record == Emit => CASE phase = 1 -> PrintT(ToJson([L |-> L, room |-> room, pat |-> pat, n |-> n, used |-> PUsed(n), fits |-> PUsed(n) <= room, recbytes |-> RecBytes(Larger(PRec(1), PRec(n)))]))
                    [] phase = 2 -> PrintT(ToJson([L |-> L, room |-> room, list |-> list, used |-> Used(list), fits |-> Used(list) <= room, recbytes |-> RecBytes(MaxR(list)), slots |-> Slots(list)]))
                    [] OTHER -> TRUE
=============================================================================
