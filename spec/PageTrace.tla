----------------------------- MODULE PageTrace -----------------------------
(* Judges images of database files recorded from the code: an image lists the  *)
(* pages of the free list, of every internal object and of the file, extracted *)
(* by an independent reader.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Data == JsonDeserialize("images.json")
VARIABLE i
Init == i \in 1..Len(Data)
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i

Rng(s) == {s[k] : k \in 1..Len(s)}
\* the pages of one owner, in the order recorded
Pages(x) == <<x.root>> \o x.tabs \o x.data
Everything(m) == <<0, 1>> \o m.ftab \o m.free \o FoldLeft(LAMBDA a, x : a \o Pages(x), <<>>, m.objs)

Verdict(m) ==
  IF m.err # "" THEN m.err
  ELSE LET all == Everything(m)
           set == Rng(all)
       IN IF m.hdr # m.n THEN "the header counts " \o ToString(m.hdr) \o " pages, the file has " \o ToString(m.n)
          ELSE IF \E p \in set : p < 0 \/ p >= m.n THEN "a page outside the file is in use"
          ELSE IF Cardinality(set) # Len(all)
               THEN LET seen == SortSeq(all, <)
                        d == CHOOSE k \in 1..(Len(seen) - 1) : seen[k] = seen[k + 1]
                    IN "page " \o ToString(seen[d]) \o " has two owners"
          ELSE IF m.keeps /\ m.lost >= 0 /\ m.n - Cardinality(set) # m.lost
               THEN ToString(m.n - Cardinality(set) - m.lost) \o " pages were lost"
          ELSE ""
Report == PrintT(ToJson([i |-> i, v |-> [k \in 1..Len(Data[i]) |-> Verdict(Data[i][k])]]))
=============================================================================
