---- MODULE ClockSync ----
(* Clock synchronization, as what it guarantees.  A federate's clock is wrong by err (its reading minus the RTI's clock at the
   same instant).  An exchange is T1 (RTI to federate, taking d), T3 (back, taking u) and T4; if the channel were symmetric it
   would reveal -err exactly, so it is off by half of |u - d|.  At the start the clock is set by the mean of N exchanges.
   Later it is moved by a fraction 1/ATT of the mean of N of them.  All times in ns; the clock drifts by ppm. *)
EXTENDS Integers
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
HalfAsym(d, u) == (Abs(u - d) + 1) \div 2
Drift(ppm, dt) == (dt \div 1000000 + 2) * ppm
\* Bounds on |err|: after the start, from the worst exchange a; after N more exchanges; slack is what integer division loses.
InitBound(a, drift, n) == a + drift + n + 2
StepBound(e, a, drift, n, att) == Max2(0, e - e \div att) + a \div att + drift + n + 12
============================================================================
