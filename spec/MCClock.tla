---- MODULE MCClock ----
(* All behaviours of the synchronization algorithm itself, for small latencies, offsets and drifts: its error stays within the
   bounds of ClockSync, which are the ones the recorded histories of the implementation are held to. *)
EXTENDS ClockSync
CONSTANTS N, ATT, LAT, WINDOWS
OFFS == {-50, -7, -1, 0, 1, 8, 50}
DRIFT == {-1, 1}
VARIABLES err,      \* reading of the federate minus reading of the RTI
          sum, n, a, win, e, w
vars == <<err, sum, n, a, win, e, w>>
Div(x, y) == IF x >= 0 THEN x \div y ELSE -((-x) \div y)      \* as in C
Init == /\ err \in OFFS /\ sum = 0 /\ n = 0 /\ a = 0 /\ win = 0 /\ e = 0 /\ w = 0
\* One exchange: the estimate of the error, from what the federate can see.
Exchange(d, u) ==
  LET rtd == d + u
      est == Div(rtd, 2) - (d + err)         \* T2 - T1 is d + err
      att == IF win = 0 THEN est ELSE Div(est, ATT)
  IN /\ sum' = sum + Div(att, N)
     /\ n' = n + 1
     /\ a' = Max2(a, HalfAsym(d, u))
Apply ==
  /\ n = N
  /\ win < WINDOWS
  /\ err' = err + sum
  /\ e' = IF win = 0 THEN InitBound(a, w, N) ELSE StepBound(e, a, w, N, ATT)
  /\ sum' = 0 /\ n' = 0 /\ a' = 0 /\ win' = win + 1 /\ w' = 0
Next == \/ n < N /\ win < WINDOWS /\ \E d, u \in LAT : Exchange(d, u) /\ UNCHANGED <<err, win, e, w>>
        \/ Apply
        \/ /\ n > 0 /\ win < WINDOWS /\ w < 2
           /\ \E s \in DRIFT : err' = err + s
           /\ e' = IF win = 0 THEN e ELSE e + 1
           /\ w' = w + 1
           /\ UNCHANGED <<sum, n, a, win>>
Spec == Init /\ [][Next]_vars
Bounded == win > 0 => Abs(err) <= e
Used == win = WINDOWS => e < 60
=============================================================================
