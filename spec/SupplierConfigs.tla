------------------------- MODULE SupplierConfigs -------------------------
(* Configurations of suppliers inside an infobase. An owner installs supplier configurations and takes newer
   versions of them; changes are pending until they are applied. Records of the two tables are never rewritten:
   a replaced record stays behind as a deleted one. Other files of the configuration lie between them.
   What has to be reported is every supplier configuration that either table holds.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ids, Props, Formats, Texts, Noise, MaxOps, MaxParts, Sim
VARIABLES main, pend, gone, noise, n, hist, done
vars == <<main, pend, gone, noise, n, hist, done>>

Pick(S) == IF Sim THEN {RandomElement({x \in S : n >= 0})} ELSE S
Vary(S, d) == IF Sim THEN Pick(S) ELSE {d}
None == [tag |-> 0]
Empty == [i \in Ids |-> None]
Is(x) == x.tag # 0
Config(i) == [tag : {n}, id : {i}, props : Pick(Props), fmt : Pick(Formats), name : Pick(Texts), sup : Pick(Texts), ver : Pick(Texts),
              before : Vary(0..2, n % 3), after : Vary(0..1, n % 2), parts : Vary(1..MaxParts, 1), big : Vary(BOOLEAN, n = 2), upper : Vary(BOOLEAN, n = 3)]
Dead(t, x) == IF Is(x) THEN <<[t |-> t, c |-> x]>> ELSE << >>

Init == main = Empty /\ pend = Empty /\ gone = << >> /\ noise = << >> /\ n = 1 /\ hist = << >> /\ done = FALSE
More == ~done /\ n <= MaxOps
Log(x) == hist' = Append(hist, x)
(* a supplier configuration is put into the pending configuration *)
Install == /\ More
           /\ \E i \in Pick(Ids) : \E c \in Config(i) :
                pend' = [pend EXCEPT ![i] = c] /\ gone' = gone \o Dead("CONFIGSAVE", pend[i]) /\ Log(<<"install", i>>)
           /\ UNCHANGED <<main, noise, done>>
(* pending changes become the configuration of the database *)
Apply == /\ More /\ (\E i \in Ids : Is(pend[i]))
         /\ main' = [i \in Ids |-> IF Is(pend[i]) THEN pend[i] ELSE main[i]]
         /\ LET RECURSIVE All(_)
                All(S) == IF S = {} THEN << >> ELSE LET i == CHOOSE x \in S : TRUE IN
                          Dead("CONFIGSAVE", pend[i]) \o Dead("CONFIG", main[i]) \o All(S \ {i})
            IN gone' = gone \o All({i \in Ids : Is(pend[i])})
         /\ pend' = Empty /\ Log(<<"apply", "">>) /\ UNCHANGED <<noise, done>>
(* the link to a supplier is given up *)
Detach == /\ More /\ (\E i \in Ids : Is(main[i]))
          /\ \E i \in Pick({i \in Ids : Is(main[i])}) :
               main' = [main EXCEPT ![i] = None] /\ gone' = gone \o Dead("CONFIG", main[i]) /\ Log(<<"detach", i>>)
          /\ UNCHANGED <<pend, noise, done>>
(* files that are no supplier configurations *)
Other == /\ More /\ Len(noise) < 4
         /\ \E k \in Pick(Noise) : \E t \in Pick({"CONFIG", "CONFIGSAVE"}) :
              noise' = Append(noise, [k |-> k, t |-> t, tag |-> n]) /\ Log(<<"other", k>>)
         /\ UNCHANGED <<main, pend, gone, done>>
Reported == {x \in {main[i] : i \in Ids} \cup {pend[i] : i \in Ids} : Is(x)}
Done == /\ ~done /\ done' = TRUE
        /\ PrintT(ToJson([main |-> {main[i] : i \in {j \in Ids : Is(main[j])}}, pend |-> {pend[i] : i \in {j \in Ids : Is(pend[j])}},
                          gone |-> gone, noise |-> noise, reported |-> Reported]))
        /\ UNCHANGED <<main, pend, gone, noise, hist>>
Rest == done /\ UNCHANGED <<main, pend, gone, noise, hist, done>>
Next == /\ (Install \/ Apply \/ Detach \/ Other \/ Done \/ (Sim /\ Rest))
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* every reported configuration is a living record, and no two of them are the same one *)
Living == \A x \in Reported : \A g \in DOMAIN gone : gone[g].c = x => (gone[g].t = "CONFIGSAVE" /\ x = main[x.id])
TwoPerSupplier == Cardinality(Reported) <= 2 * Cardinality(Ids)
PendingNewer == \A i \in Ids : (Is(main[i]) /\ Is(pend[i])) => pend[i].tag > main[i].tag
===========================================================================
