----------------------------- MODULE LFRuntime -----------------------------
(***************************************************************************)
(* The reactor runtime: one environment executing one program.             *)
(*                                                                         *)
(* Everything is a pure operator on a program record p and a state record  *)
(* s, so that the same definitions are used                                *)
(*   - by MCRuntime, where TLC explores every choice of operations of      *)
(*     small programs and checks the invariants below, and                 *)
(*   - by TraceRuntime, where TLC checks histories recorded from the real  *)
(*     code against them.                                                  *)
(*                                                                         *)
(* Program p (all ids 1-based, mode 0 = no mode, lists are sequences):     *)
(*   tm[i] = [off, per, md, rs]         timers                             *)
(*   ac[i] = [min, sp, pol, phy, md, rs] actions (pol 0 defer 1 drop       *)
(*           2 replace; sp spacing, 0 = none; phy 1 = physical)            *)
(*   po[i] = [rs]                        ports                             *)
(*   rx[i] = [md, dl, pr, ro]   reactions: mode, deadline (-1 none),       *)
(*           transitive predecessors, reactor                              *)
(*   su, sd, rz                  startup, shutdown, reset reactions        *)
(*   ms[i] = [init, par]         modal reactors, ordered top down          *)
(*   md[i] = [ms]                modes                                     *)
(*   rs[i] = [svmd]              reactors: mode that resets state var 2    *)
(*   keep, tmo, fast, jit                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 2000000000
FOREVER == <<INF, 0>>
NEVER == <<-1, 0>>
LT(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LE(a, b) == ~LT(b, a)
TMin(a, b) == IF LT(a, b) THEN a ELSE b
TMax(a, b) == IF LT(a, b) THEN b ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Succ(c) == <<c[1], c[2] + 1>>
\* A tag delayed by a non-negative interval; zero delay is one microstep.
Delay(c, d) == IF d = 0 THEN Succ(c) ELSE <<c[1] + d, 0>>
SetOf(q) == {q[j] : j \in 1..Len(q)}
TagOf(e) == <<e.t, e.m>>
MinTag(Q) == TagOf(CHOOSE e \in Q : \A f \in Q : LE(TagOf(e), TagOf(f)))

(* ------------------------------------------------------------ modes *)
RECURSIVE ActiveIn(_, _, _)
ActiveIn(p, cur, md) ==
  IF md = 0 THEN TRUE
  ELSE LET r == p.md[md].ms IN cur[r] = md /\ ActiveIn(p, cur, p.ms[r].par)
Active(p, s, md) == md = 0 \/ ActiveIn(p, s.mcur, md)
ActiveRx(p, s, rs) == {x \in SetOf(rs) : Active(p, s, p.rx[x].md)}
EvMode(p, e) == IF e.k = "A" THEN p.ac[e.i].md ELSE IF e.k = "T" THEN p.tm[e.i].md ELSE 0

(* ------------------------------------------------------------ scheduling *)
Ev(tg, k, i, v) == [t |-> tg[1], m |-> tg[2], k |-> k, i |-> i, v |-> v]
RECURSIVE FirstFree(_, _, _)
FirstFree(Q, a, tg) ==
  IF \E e \in Q : e.k = "A" /\ e.i = a /\ TagOf(e) = tg THEN FirstFree(Q, a, Succ(tg)) ELSE tg
\* The result of scheduling action a with extra delay d and value v when physical time is ph.
\* r: "ins" (a new event), "repl" (replaced the value of a pending event), "drop".
SchedBase(p, s, a, d, ph) ==
  LET A == p.ac[a]
      del == Max2(d, 0) + A.min
  IN IF A.phy = 1
     THEN IF ph + del > s.cur[1] THEN <<ph + del, 0>> ELSE Succ(s.cur)
     ELSE Delay(s.cur, del)
Insert(s, a, tg, v) ==
  IF LT(s.stop, tg) THEN [s |-> s, r |-> "drop"]
  ELSE [s |-> [s EXCEPT !.q = @ \cup {Ev(tg, "A", a, v)}, !.last[a] = tg], r |-> "ins"]
Sched(p, s, a, d, v, ph) ==
  LET A == p.ac[a]
      base == SchedBase(p, s, a, d, ph)
      early == s.last[a] # NEVER /\ s.last[a][1] + A.sp > base[1]
      deferred == <<s.last[a][1] + A.sp, 0>>
      pend == {e \in s.q : e.k = "A" /\ e.i = a /\ TagOf(e) = s.last[a]}
  IN IF LT(s.stop, s.cur) THEN [s |-> s, r |-> "drop"]
     ELSE IF A.sp = 0 THEN Insert(s, a, FirstFree(s.q, a, base), v)
     ELSE IF ~early THEN Insert(s, a, base, v)
     ELSE IF A.pol = 1 THEN [s |-> s, r |-> "drop"]
     ELSE IF A.pol = 2 /\ pend # {}
          THEN [s |-> [s EXCEPT !.q = (@ \ pend) \cup {Ev(s.last[a], "A", a, v)}], r |-> "repl"]
     ELSE Insert(s, a, deferred, v)
SchedTimer(p, s, i, d) ==
  LET tg == Delay(s.cur, d) IN
  IF LT(s.stop, tg) \/ LT(s.stop, s.cur) THEN s ELSE [s EXCEPT !.q = @ \cup {Ev(tg, "T", i, 0)}]
RECURSIVE SchedTimers(_, _, _, _)
SchedTimers(p, s, T, off) ==   \* off: use the offset of each timer, otherwise its period
  IF T = {} THEN s
  ELSE LET i == CHOOSE j \in T : TRUE
       IN SchedTimers(p, SchedTimer(p, s, i, IF off THEN p.tm[i].off ELSE p.tm[i].per), T \ {i}, off)
RequestStop(s) == [s EXCEPT !.stop = TMin(@, Succ(s.cur))]

(* ------------------------------------------------------------ mode transitions at the end of a tag *)
NMs(p) == Len(p.ms)
RECURSIVE Cascade(_, _, _)
\* A reset of the enclosing mode resets the modal reactor as well (top down).
Cascade(p, s, i) ==
  IF i > NMs(p) THEN s
  ELSE LET par == p.ms[i].par IN
       IF par # 0 /\ s.mnext[p.md[par].ms] = par /\ s.mhow[p.md[par].ms] = "reset"
       THEN Cascade(p, [s EXCEPT !.mnext[i] = p.ms[i].init, !.mhow[i] = "reset"], i + 1)
       ELSE Cascade(p, s, i + 1)
\* Modes that are (re-)entered by the pending transitions, with the way they are entered: a mode is entered
\* with history too when the mode around it is re-entered with history and it is its current mode.
RECURSIVE EnteredHist(_, _, _)
EnteredHist(p, s, md) == \* md is entered, directly or because an enclosing mode is, with history
  IF md = 0 THEN FALSE
  ELSE LET i == p.md[md].ms IN
       IF s.mnext[i] # 0
       THEN s.mnext[i] = md /\ s.mhow[i] = "hist" /\ s.mcur[i] # md
       ELSE s.mcur[i] = md /\ EnteredHist(p, s, p.ms[i].par)
ApplyModes(p, s) ==
  LET resets == {s.mnext[i] : i \in {j \in 1..NMs(p) : s.mnext[j] # 0 /\ s.mhow[j] = "reset"}}
      Entered == {s.mnext[i] : i \in {j \in 1..NMs(p) : s.mnext[j] # 0}}
      mcur == [i \in 1..NMs(p) |-> IF s.mnext[i] # 0 THEN s.mnext[i] ELSE s.mcur[i]]
      \* Modes that stop or start being active.
      act0 == {m \in 1..Len(p.md) : ActiveIn(p, s.mcur, m)}
      act1 == {m \in 1..Len(p.md) : ActiveIn(p, mcur, m)}
      histAct == {m \in act1 : EnteredHist(p, s, m)}
      \* Reset: timers start over, pending events of actions are dropped.
      timers == {i \in 1..Len(p.tm) : p.tm[i].md \in resets /\ p.tm[i].md # 0}
      sA == SchedTimers(p, [s EXCEPT !.sus = {e \in @ : EvMode(p, e) \notin resets},
                                     !.sv = [r \in 1..Len(p.rs) |->
                                               IF p.rs[r].svmd # 0 /\ p.rs[r].svmd \in resets
                                               THEN <<@[r][1], 100>> ELSE @[r]]], timers, TRUE)
      \* History: suspended events continue with the delay they had left.
      back == {e \in sA.sus : EvMode(p, e) \in histAct}
      Left(e) == e.t - s.mdeact[EvMode(p, e)]
      \* (events of one action at consecutive microsteps stay in their order)
      Rank(e) == Cardinality({f \in back : f.k = e.k /\ f.i = e.i /\ f.t = e.t /\ f.m < e.m})
      again == {[e EXCEPT !.t = s.cur[1] + Left(e), !.m = (IF Left(e) = 0 THEN s.cur[2] + 1 ELSE 0) + Rank(e)] : e \in back}
      sB == [sA EXCEPT !.sus = @ \ back, !.q = @ \cup {e \in again : LE(TagOf(e), s.stop)}]
      \* Leaving: events of modes that are not active any more are suspended.
      gone == {e \in sB.q : EvMode(p, e) # 0 /\ EvMode(p, e) \notin act1}
      needS == {m \in act1 : m \notin s.had}
      needR == (s.needR \ Entered) \cup resets
      dummy == IF \E m \in act1 : m \in needS \cup needR THEN {Ev(Succ(s.cur), "D", 0, 0)} ELSE {}
  IN [sB EXCEPT !.q = (@ \ gone) \cup dummy, !.sus = @ \cup gone, !.mcur = mcur,
                !.mnext = [i \in 1..NMs(p) |-> 0],
                !.mdeact = [m \in 1..Len(p.md) |-> IF m \in (act0 \cup resets) \ act1 THEN s.cur[1] ELSE @[m]],
                !.needS = needS, !.needR = needR]
EndTag(p, s) ==
  IF \A i \in 1..NMs(p) : s.mnext[i] = 0 THEN s ELSE ApplyModes(p, Cascade(p, s, 1))

(* ------------------------------------------------------------ entering a tag *)
Absent == [pr |-> 0, v |-> 0]
NextTag(s) == IF s.q = {} THEN s.stop ELSE TMin(MinTag(s.q), s.stop)
\* Without pending events (and without keepalive) the program stops one microstep later.
StopIfEmpty(p, s) == IF s.q = {} /\ p.keep = 0 THEN [s EXCEPT !.stop = TMin(@, Succ(s.cur))] ELSE s
\* Startup and reset reactions of modes that became active.
ModeTriggers(p, s) ==
  LET act == {m \in 1..Len(p.md) : ActiveIn(p, s.mcur, m)}
      S == {x \in SetOf(p.su) : p.rx[x].md \in act \cap s.needS}
      R == {x \in SetOf(p.rz) : p.rx[x].md \in act \cap s.needR}
  IN [s EXCEPT !.en = @ \cup S \cup R, !.had = @ \cup (act \cap s.needS),
               !.needS = @ \ act, !.needR = @ \ act]
Shutdown(p, s) ==
  LET D == SetOf(p.sd)
      must == {x \in D : p.rx[x].md = 0 \/ p.rx[x].md \in s.had}
      \* A mode that starts at the very last tag: not determined whether its shutdown reactions run.
      may == {x \in D : p.rx[x].md # 0 /\ p.rx[x].md \in s.needS}
  IN [s EXCEPT !.en = @ \cup must \cup may, !.opt = may]
Enter(p, s, nt) ==
  LET E == {e \in s.q : TagOf(e) = nt}
      s1 == [s EXCEPT !.cur = nt, !.q = @ \ E, !.done = {}, !.en = {}, !.opt = {},
                      !.pa = [a \in 1..Len(p.ac) |-> Absent], !.pp = [o \in 1..Len(p.po) |-> Absent]]
      s2 == IF LE(s.stop, nt) THEN Shutdown(p, s1) ELSE s1
      s3 == ModeTriggers(p, s2)
      acts == {e \in E : e.k = "A"}
      tims == {e.i : e \in {f \in E : f.k = "T"}}
      s4 == [s3 EXCEPT !.pa = [a \in 1..Len(p.ac) |->
                                 IF \E e \in acts : e.i = a
                                 THEN [pr |-> 1, v |-> (CHOOSE e \in acts : e.i = a).v] ELSE Absent],
                       !.en = @ \cup UNION {ActiveRx(p, s3, p.ac[e.i].rs) : e \in acts}
                                \cup UNION {ActiveRx(p, s3, p.tm[i].rs) : i \in tims}]
  IN SchedTimers(p, s4, {i \in tims : p.tm[i].per > 0}, FALSE)
Prepared(p, s) == StopIfEmpty(p, EndTag(p, s))
Step(p, s) == LET s1 == Prepared(p, s) IN Enter(p, s1, NextTag(s1))

Start(p) ==
  LET mcur == [i \in 1..NMs(p) |-> p.ms[i].init]
      stop == IF p.tmo >= 0 THEN <<p.tmo, 0>> ELSE FOREVER
      act == {m \in 1..Len(p.md) : ActiveIn(p, mcur, m)}
      T == 1..Len(p.tm)
      on == {i \in T : p.tm[i].md = 0 \/ p.tm[i].md \in act}
      s0 == [cur |-> <<0, 0>>, stop |-> stop, pend |-> FOREVER, gtag |-> <<-1, 0>>, risk |-> 0, lostph |-> 2000000000, q |-> {}, last |-> [a \in 1..Len(p.ac) |-> NEVER],
             pa |-> [a \in 1..Len(p.ac) |-> Absent], pp |-> [o \in 1..Len(p.po) |-> Absent],
             en |-> {}, run |-> {}, done |-> {}, opt |-> {}, nest |-> {},
             mcur |-> mcur, mnext |-> [i \in 1..NMs(p) |-> 0], mhow |-> [i \in 1..NMs(p) |-> "hist"],
             mdeact |-> [m \in 1..Len(p.md) |-> 0], had |-> {}, needS |-> act, needR |-> {},
             sus |-> {Ev(<<p.tm[i].off, 0>>, "T", i, 0) : i \in T \ on},
             sv |-> [r \in 1..Len(p.rs) |-> <<0, 100>>],
             wdx |-> [w \in 1..Len(p.wd) |-> -1], wrun |-> {}, wdoff |-> FALSE, freed |-> {}, alloc |-> {}, kept |-> {},
             lastph |-> 0, flags |-> {}]
      s1 == ModeTriggers(p, [s0 EXCEPT !.en = {x \in SetOf(p.su) : p.rx[x].md = 0}])
      fire == {i \in on : p.tm[i].off = 0}
      s2 == [s1 EXCEPT !.en = @ \cup UNION {ActiveRx(p, s1, p.tm[i].rs) : i \in fire}]
      s3 == SchedTimers(p, s2, {i \in fire : p.tm[i].per > 0}, FALSE)
      s4 == SchedTimers(p, s3, on \ fire, TRUE)
  IN IF LE(stop, <<0, 0>>) THEN Shutdown(p, s4) ELSE s4

(* ------------------------------------------------------------ steps of reactions *)
Ready(p, s, x) == x \in s.en /\ SetOf(p.rx[x].pr) \cap (s.en \cup s.run) = {}
Begin(s, x) == [s EXCEPT !.en = @ \ {x}, !.run = @ \cup {x}]
End(s, x) == [s EXCEPT !.run = @ \ {x}, !.done = @ \cup {x}]
SetPort(p, s, o, v) ==
  [s EXCEPT !.pp[o] = [pr |-> 1, v |-> v],
            !.en = @ \cup (ActiveRx(p, s, p.po[o].rs) \ (s.run \cup s.done))]
SetMode(p, s, m, how) == [s EXCEPT !.mnext[p.md[m].ms] = m, !.mhow[p.md[m].ms] = how]
TagDone(s) == s.en \subseteq s.opt /\ s.run = {}
=============================================================================
