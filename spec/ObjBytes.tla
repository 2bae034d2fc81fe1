------------------------------ MODULE ObjBytes ------------------------------
(* Internal objects of a database file as users of the page layer see them:    *)
(* each live object is a byte array.  Bytes that come into existence by a      *)
(* length change or by writing past the end are not specified (negative        *)
(* pattern) until they are written, but once there they stay as they are.      *)
(* hist records the calls, for replay into the code.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Runs

CONSTANTS Names, Built, Lens, Offs, Modes, MaxOps, Sim, Acts, MaxTotal
\* Built: the lengths of the objects already in the file, by name

VARIABLES obj, hist, tag
vars == <<obj, hist, tag>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Live == DOMAIN obj
Len0(o) == RLen(obj[o])
Set(o, v) == [x \in DOMAIN obj \cup {o} |-> IF x = o THEN v ELSE obj[x]]
Drop(o) == [x \in DOMAIN obj \ {o} |-> obj[x]]
Total(f) == LET RECURSIVE S(_)
                S(D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN RLen(f[x]) + S(D \ {x})
            IN S(DOMAIN f)
Unspec(n) == Run(-tag, 0, n)
\* an object grown or cut to n bytes
Resized(r, n) == IF n <= RLen(r) THEN RSlice(r, 0, n) ELSE RCat(r, <<Unspec(n - RLen(r))>>)
Written(r, off, n) ==
  LET b == IF off > RLen(r) THEN Resized(r, off) ELSE r
  IN ROverlay(b, off, <<Run(tag, 0, n)>>)
All == [o \in Live |-> obj[o]]
Snapshot == {[o |-> x, r |-> obj[x]] : x \in Live}

Init == /\ obj = [o \in DOMAIN Built |-> RCat(<<>>, <<Run(900 + Built[o].t, 0, Built[o].n)>>)]
        /\ hist = <<>> /\ tag = 1
More == Len(hist) < MaxOps
Log(x) == hist' = Append(hist, x)
Fits(f) == Total(f) <= MaxTotal

New == /\ More /\ "N" \in Acts
       /\ \E o \in Pick(Names) : /\ o \notin Live
                                 /\ obj' = Set(o, <<>>) /\ Log([a |-> "N", o |-> o])
       /\ UNCHANGED tag
WriteAll == /\ More /\ "W" \in Acts /\ Live # {}
            /\ \E o \in Pick(Live) : \E n \in Pick(Lens) : \E m \in Pick(Modes) :
                 /\ obj' = Set(o, RCat(<<>>, <<Run(tag, 0, n)>>)) /\ Fits(obj')
                 /\ Log([a |-> "W", o |-> o, t |-> tag, n |-> n, m |-> m])
            /\ tag' = tag + 1
\* at an absolute place, or relative to the end of the object
WriteAt == /\ More /\ "A" \in Acts /\ Live # {}
           /\ \E o \in Pick(Live) : \E n \in Pick(Lens) : \E f \in Pick(Offs) : \E m \in Pick(Modes) :
                LET off == IF f < 0 THEN RMax(0, Len0(o) + f) ELSE f
                IN /\ obj' = Set(o, IF n = 0 THEN Resized(obj[o], RMax(off, Len0(o))) ELSE Written(obj[o], off, n))
                   /\ Fits(obj')
                   /\ Log([a |-> "A", o |-> o, t |-> tag, f |-> off, n |-> n, m |-> m])
           /\ tag' = tag + 1
SetLen == /\ More /\ "L" \in Acts /\ Live # {}
          /\ \E o \in Pick(Live) : \E n \in Pick(Lens) :
               /\ obj' = Set(o, Resized(obj[o], n)) /\ Fits(obj')
               /\ Log([a |-> "L", o |-> o, n |-> n])
          /\ tag' = tag + 1
Delete == /\ More /\ "D" \in Acts /\ Live # {}
          /\ \E o \in Pick(Live) : /\ obj' = Drop(o) /\ Log([a |-> "D", o |-> o])
          /\ UNCHANGED tag
\* F flush, R flush and reopen, G drop every cache that may be dropped, C fill the caches, O observe
Quiet == /\ More
         /\ \E a \in Pick({"F", "R", "G", "C", "O"} \cap Acts) : Log([a |-> a, s |-> Snapshot])
         /\ UNCHANGED <<obj, tag>>
Read == /\ More /\ "Z" \in Acts /\ Live # {}
        /\ \E o \in Pick(Live) : \E f \in Pick(Offs) : \E n \in Pick(Lens) :
              LET off == RMin(Len0(o), IF f < 0 THEN RMax(0, Len0(o) + f) ELSE f)
              IN Log([a |-> "Z", o |-> o, f |-> off, n |-> n, bad |-> off + n > Len0(o),
                      r |-> RSlice(obj[o], off, n)])
        /\ UNCHANGED <<obj, tag>>
Next == New \/ WriteAll \/ WriteAt \/ SetLen \/ Delete \/ Quiet \/ Read
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* an operation changes only the object it names, and of it only what it says
OthersKept == [][\A o \in DOMAIN obj \cap DOMAIN obj' :
                   obj[o] # obj'[o] => hist'[Len(hist')].a \in {"W", "A", "L"} /\ hist'[Len(hist')].o = o]_vars
PrefixKept == [][\A o \in DOMAIN obj \cap DOMAIN obj' :
                   LET h == hist'[Len(hist')]
                   IN (hist' # hist /\ h.a = "L" /\ h.o = o) =>
                        RSlice(obj'[o], 0, RMin(h.n, Len0(o))) = RSlice(obj[o], 0, RMin(h.n, Len0(o)))]_vars
OutsideKept == [][\A o \in DOMAIN obj \cap DOMAIN obj' :
                    LET h == hist'[Len(hist')]
                    IN (hist' # hist /\ h.a = "A" /\ h.o = o) =>
                         /\ RSlice(obj'[o], 0, RMin(h.f, Len0(o))) = RSlice(obj[o], 0, RMin(h.f, Len0(o)))
                         /\ RTail(obj'[o], h.f + h.n) = RTail(obj[o], h.f + h.n)
                         /\ RSlice(obj'[o], h.f, h.n) = RCat(<<>>, <<Run(h.t, 0, h.n)>>)]_vars
Record == Len(hist) = MaxOps => PrintT(ToJson([h |-> hist, s |-> Snapshot]))
=============================================================================
