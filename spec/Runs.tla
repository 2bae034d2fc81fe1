------------------------------- MODULE Runs -------------------------------
(* Byte strings as sequences of runs.  A run [t, o, n] stands for the n bytes  *)
(* of pattern t that start at offset o of that pattern; pattern 0 is zeros.    *)
(* The drivers and the comparison expand runs to bytes; the specifications     *)
(* never need the bytes themselves, so lengths of megabytes cost nothing.      *)
EXTENDS Integers, Sequences, SequencesExt

Run(t, o, n) == [t |-> t, o |-> IF t = 0 THEN 0 ELSE o, n |-> n]
RMin(a, b) == IF a < b THEN a ELSE b
RMax(a, b) == IF a > b THEN a ELSE b
RLen(r) == FoldLeft(LAMBDA a, x : a + x.n, 0, r)

\* append one run, merging it with the last when it continues it
RPush(r, x) ==
  IF x.n = 0 THEN r
  ELSE IF r = <<>> THEN <<x>>
  ELSE LET y == r[Len(r)] IN
       IF y.t = x.t /\ (x.t = 0 \/ y.o + y.n = x.o)
       THEN [r EXCEPT ![Len(r)] = [y EXCEPT !.n = @ + x.n]]
       ELSE Append(r, x)
RCat(a, b) == FoldLeft(RPush, a, b)

\* the bytes from position f (0-based), at most n of them
RSlice(r, f, n) ==
  FoldLeft(LAMBDA a, x :
             LET lo == RMax(f, a.p)
                 hi == RMin(f + n, a.p + x.n)
             IN [p |-> a.p + x.n,
                 r |-> IF hi > lo THEN RPush(a.r, Run(x.t, x.o + (lo - a.p), hi - lo)) ELSE a.r],
           [p |-> 0, r |-> <<>>], r).r
RTail(r, f) == RSlice(r, f, RLen(r))

\* r resized to n bytes; new bytes are zeros
RResize(r, n) == IF n <= RLen(r) THEN RSlice(r, 0, n) ELSE RCat(r, <<Run(0, 0, n - RLen(r))>>)
\* w written over r at position f; a gap is filled with zeros
ROverlay(r, f, w) ==
  LET base == IF f > RLen(r) THEN RResize(r, f) ELSE r
  IN RCat(RCat(RSlice(base, 0, f), w), RTail(base, f + RLen(w)))

\* laws checked in the models that use the module
RunsLaw(r, w, f) == /\ RLen(ROverlay(r, f, w)) = RMax(RLen(r), f + RLen(w))
                    /\ RSlice(ROverlay(r, f, w), f, RLen(w)) = RCat(<<>>, w)
=============================================================================
