-------------------------------- MODULE RTI --------------------------------
(***************************************************************************)
(* Centralized coordination: what the RTI may and must do, given the       *)
(* messages it has received.  Pure operators on a topology p and a state   *)
(* record s, shared by MCRTI (TLC explores federates and RTI) and by       *)
(* TraceRTI (TLC checks byte streams recorded at the real RTI).            *)
(*                                                                         *)
(* p.n      number of federates (1..n)                                     *)
(* p.lk[i]  [f, t, d]: a connection from f to t; d is the delay of its     *)
(*          tags: -1 none, 0 one microstep, otherwise a time               *)
(* s.done[f]  latest tag f confirmed complete (LTC)                        *)
(* s.net[f]   latest next-event tag (NET) f sent                           *)
(* s.fly[f]   tags of messages sent to f, as far as the RTI has read them  *)
(* s.gone     federates that have resigned or failed                       *)
(* s.inf[f]   f has sent a NET since its last LTC                          *)
(* s.stop     the stop tag that has been granted, or FOREVER               *)
(* s.tag[f], s.ptag[f]  latest TAG and PTAG sent to f                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
INF == 2000000000
FOREVER == <<INF, 0>>
NEVER == <<-1, 0>>
LT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LE(a, b) == ~LT(b, a)
TMin(a, b) == IF LT(a, b) THEN a ELSE b
TMax(a, b) == IF LT(a, b) THEN b ELSE a
Succ(c) == IF c[1] >= INF THEN FOREVER ELSE IF LT(c, <<0, 0>>) THEN <<0, 0>> ELSE <<c[1], c[2] + 1>>
Delay(c, d) == IF c[1] >= INF THEN FOREVER
               ELSE IF d = -1 THEN c ELSE IF d = 0 THEN <<c[1], c[2] + 1>> ELSE <<c[1] + d, 0>>
RECURSIVE MinOf(_)
MinOf(S) == IF S = {} THEN FOREVER ELSE LET x == CHOOSE x \in S : TRUE IN TMin(x, MinOf(S \ {x}))
SetOf(q) == {q[j] : j \in 1..Len(q)}

Feds(p) == 1..p.n
Into(p, f) == {l \in SetOf(p.lk) : l.t = f}
OutOf(p, f) == {l \in SetOf(p.lk) : l.f = f}

(* The earliest tag that federate f may still execute if it receives nothing more than what has
   been read for it: a NET is a promise; after an LTC it is the successor of the completed tag. *)
Own(p, s, f) ==
  IF f \in s.gone THEN FOREVER
  ELSE LET mine == IF LT(s.done[f], s.net[f]) THEN s.net[f] ELSE Succ(s.done[f])
       IN MinOf({TMax(TMin(mine, s.stop), Succ(s.done[f]))} \cup {m \in s.fly[f] : LT(s.done[f], m)})
(* ... and if it may receive messages from others, transitively. pass = TRUE is the weaker knowledge
   on which the RTI has to act: federates that have left still count as connections between the others,
   and completed tags of federates in between do not count. *)
RECURSIVE Relax(_, _, _, _, _)
Relax(p, s, pass, E, k) ==
  IF k = 0 THEN E
  ELSE LET N == [f \in Feds(p) |->
                   IF f \in s.gone /\ ~pass THEN FOREVER
                   ELSE TMax(IF f \in s.gone \/ pass THEN NEVER ELSE Succ(s.done[f]),
                             MinOf({E[f]} \cup {Delay(E[l.f], l.d) : l \in Into(p, f)}))]
       IN IF N = E THEN E ELSE Relax(p, s, pass, N, k - 1)
Earliest(p, s, pass) == Relax(p, s, pass, [f \in Feds(p) |-> Own(p, s, f)], p.n)
(* The earliest tag of a message that may still be sent to f. *)
Bound(p, s, E, f) == MinOf({Delay(E[l.f], l.d) : l \in Into(p, f)})

(* Connections without any delay. *)
Zero(p) == {<<l.f, l.t>> : l \in {x \in SetOf(p.lk) : x.d = -1}}
RECURSIVE Close(_)
Close(R) == LET N == R \cup {<<a[1], b[2]>> : a \in R, b \in R}
                M == {x \in N : \E a \in R, b \in R : x \in R \/ (a[2] = b[1] /\ x = <<a[1], b[2]>>)}
            IN IF M = R THEN R ELSE Close(M)
Cl(p) == IF "cl" \in DOMAIN p THEN p.cl ELSE Close(Zero(p))      \* p.cl: computed in advance
InCycle(p) == {f \in Feds(p) : <<f, f>> \in Cl(p)}
SameCycle(p, a, b) == LET c == Cl(p) IN <<a, b>> \in c /\ <<b, a>> \in c
(* The same for messages from outside the zero-delay cycle that f is part of. *)
Strict(p, s, E, f) == MinOf({Delay(E[l.f], l.d) : l \in {x \in Into(p, f) : ~(x.d = -1 /\ SameCycle(p, x.f, f))}})

SafeTAG(p, s, f, g) == LET B == Bound(p, s, Earliest(p, s, FALSE), f) IN LT(g, B) \/ B = FOREVER
(* At a PTAG the federate waits for messages from within its cycle only. *)
SafePTAG(p, s, f, g) == LET E == Earliest(p, s, FALSE)
                        IN LE(g, Bound(p, s, E, f)) /\ (LT(g, Strict(p, s, E, f)) \/ Strict(p, s, E, f) = FOREVER)

(* What the RTI must have sent when it has processed everything that it has read: the next event of
   a federate is what it said, or a message it may not have seen when it said so. *)
Want(s, f) == MinOf({s.net[f], s.stop} \cup {m \in s.fly[f] : LT(s.done[f], m)})
Waiting(p, s, f) == LET w == Want(s, f) IN f \notin s.gone /\ LT(s.done[f], w) /\ LT(s.tag[f], w) /\ ~LT(w, s.ptag[f])
OwesTAG(p, s, E, f) == /\ Waiting(p, s, f) /\ Want(s, f)[1] < INF /\ Into(p, f) # {}
                       /\ \/ LT(Want(s, f), Bound(p, s, E, f))
                          \/ LT(Want(s, f), MinOf({IF s.done[l.f] = NEVER THEN NEVER ELSE Delay(Succ(s.done[l.f]), l.d) : l \in {x \in Into(p, f) : x.f \notin s.gone}}))
OwesPTAG(p, s, E, f) == /\ Waiting(p, s, f) /\ f \in InCycle(p) /\ Want(s, f) = Bound(p, s, E, f)
                        /\ LT(Want(s, f), Strict(p, s, E, f)) /\ LT(s.ptag[f], Want(s, f))
(* Every federate has said what it will do next. *)
Informed(p, s) == \A f \in Feds(p) : f \in s.gone \/ s.inf[f]
=============================================================================
