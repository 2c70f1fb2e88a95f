---- MODULE TraceUnits ----
(* Sequences of operations performed by the real containers and functions, with their results: is every result one that
   Units allows? *)
EXTENDS Units, Json, IOUtils, TLC
Batch == JsonDeserialize(IOEnv.LFV_BATCH)
VARIABLES tr, i, s
Evs == Batch[tr].ev
Init == tr \in 1..Len(Batch) /\ i = 1 /\ s = Empty
Next == /\ i <= Len(Evs)
        /\ LET n == IF s.flags # {} THEN s ELSE Do(s, Evs[i])
               m == [n EXCEPT !.at = IF n.flags # {} /\ @ = 0 THEN i ELSE @]
           IN /\ i' = i + 1
              /\ s' = m
              /\ (i = Len(Evs) => PrintT(<<"VERDICT", Batch[tr].id, m.flags, m.at>>))
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i, s>>
=============================================================================
