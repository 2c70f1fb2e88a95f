---- MODULE TraceClock ----
(* The history of one federate of a federation with clock synchronization: the messages of the synchronization, as the network
   saw them, and the readings that its reactions take of the physical clock. *)
EXTENDS ClockSync, Sequences, Json, IOUtils, TLC
Batch == JsonDeserialize(IOEnv.LFV_BATCH)
VARIABLES tr, i, s
P == Batch[tr].p     \* n, att: constants; ppm: of its clock; mode: 0 off, 1 at the start, 2 always; quiet: no exchange is rejected
Evs == Batch[tr].ev
Nil == 0 - 1
Init == /\ tr \in 1..Len(Batch) /\ i = 1
        /\ s = [flags |-> {}, at |-> 0, st |-> "", w1 |-> 0, r1 |-> 0, w3 |-> 0, w4 |-> 0, n |-> 0, a |-> 0, t0 |-> 0, e |-> Nil, et |-> 0,
                last |-> Nil, top |-> Nil, wins |-> 0, tried |-> Nil, un |-> 0]
Flag(z, f) == [z EXCEPT !.flags = @ \cup {f}]
Now(z, t) == z.e + Drift(P.ppm, t - z.et)      \* the bound at time t
\* An exchange has ended at the federate, at time t.
Done(z, t) ==
  LET h == HalfAsym(z.r1 - z.w1, z.w4 - z.w3)
      a == Max2(z.a, h)
      k == z.n + 1
      t0 == IF z.n = 0 THEN z.w1 ELSE z.t0
      y == [z EXCEPT !.st = "", !.n = k, !.a = a, !.t0 = t0]
      dr == Drift(P.ppm, t - t0)
      \* A round that is rejected is no part of the mean; the worst case is kept for all of them.
      fix == IF z.e = Nil THEN InitBound(a, dr, P.n)
             ELSE IF P.quiet = 1 THEN StepBound(Now(z, t), a, dr, P.n, P.att) ELSE Max2(Now(z, t), a) + dr + P.n + 12
  IN IF k < P.n THEN y
     ELSE [y EXCEPT !.n = 0, !.a = 0, !.e = fix, !.et = t, !.wins = @ + 1, !.top = IF z.e = Nil THEN Nil ELSE Max2(@, t + Now(z, t))]
Step(z, ev) ==
  LET t == ev.t IN
  \* What the RTI writes is its clock (writing takes up to wd); what is read later is that time (d).
  CASE ev.k = "try" -> IF z.tried # Nil /\ ev.u - z.tried > P.gap THEN Flag(z, "stopped") ELSE [z EXCEPT !.tried = ev.u]
    [] ev.k = "w" /\ ev.m \in {"T1", "T4", "PR"} -> IF ev.d > 0 \/ ev.d < 0 - P.wd THEN Flag(z, "rticlock") ELSE z
    \* After a loss a T1 may be taken for what was lost, but only one.
    [] ev.k = "ask" -> IF z.un >= 2 THEN Flag(z, "silent") ELSE [z EXCEPT !.un = @ + 1]
    [] ev.k = "answer" -> [z EXCEPT !.un = 0]
    [] ev.k = "r" /\ ev.m = "T1" -> [z EXCEPT !.st = "T1", !.w1 = ev.d, !.r1 = t]
    [] ev.k = "w" /\ ev.m = "T3" -> IF z.st # "T1" THEN Flag(z, "order") ELSE [z EXCEPT !.st = "T3", !.w3 = t]
    [] ev.k = "lost" -> [z EXCEPT !.un = 0]
    [] ev.k = "r" /\ ev.m = "T3" -> z
    [] ev.k = "r" /\ ev.m = "T4" -> IF z.st # "T3" THEN z
                                   ELSE IF z.e = Nil THEN Done([z EXCEPT !.w4 = ev.d], t) ELSE [z EXCEPT !.st = "T4", !.w4 = ev.d]
    [] ev.k = "r" /\ ev.m = "PR" -> IF z.st = "T4" THEN Done(z, t) ELSE z
    [] ev.k = "clk" ->
         LET B == Now(z, t)
             p == ev.p
             y == [z EXCEPT !.last = p + t, !.tried = IF @ = Nil THEN ev.u ELSE @]
         IN IF z.e = Nil THEN Flag(z, "unsynchronized")
            ELSE IF z.last # Nil /\ p + t < z.last THEN Flag(z, "backwards")
            \* A clock that was ahead when it was moved may have been read then, and stands still until it is right.
            ELSE IF Abs(p) > B /\ ~(p > 0 /\ p + t <= Max2(z.last, z.top) + 50) THEN Flag(z, "wrong")
            ELSE IF ev.tg > 10000 + 2 * B + P.slack THEN Flag(y, "early")
            ELSE IF P.lone = 1 /\ ev.m = "" /\ 0 - ev.tg > 20000 + P.work + 2 * B + P.slack THEN Flag(y, "late")
            ELSE y
    [] ev.k = "end" -> IF z.wins < P.wins THEN Flag(z, "nosync")
                       ELSE IF z.tried # Nil /\ ev.u - z.tried > P.gap THEN Flag(z, "stopped") ELSE z   \* the RTI has to go on
    [] ev.k = "bad" -> Flag(z, "bad")
    [] OTHER -> Flag(z, "unknown")
Next == /\ i <= Len(Evs)
        /\ LET n == IF s.flags # {} THEN s ELSE Step(s, Evs[i])
               m == [n EXCEPT !.at = IF n.flags # {} /\ @ = 0 THEN i ELSE @]
           IN /\ i' = i + 1
              /\ s' = m
              /\ (i = Len(Evs) => PrintT(<<"VERDICT", Batch[tr].id, m.flags, m.at>>))
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i, s>>
============================================================================
