---------------------------- MODULE TraceRuntime ----------------------------
(* Checks histories recorded from the real runtime against LFRuntime.  A    *)
(* batch file holds many histories; every history is one initial state and  *)
(* one deterministic path, ending in a verdict that is printed.             *)
EXTENDS LFRuntime, Json, IOUtils, TLCExt

Batch == JsonDeserialize(IOEnv.LFV_BATCH)
SLACK == 1000000     \* how late (ns) something may happen after everything it waits for
SHORT == 20000       \* the same for what takes no time but that of its causes
LATENCY == 3000000   \* how long (ns) a message may take over a physical connection
EARLY == 10000       \* how early a tag may start: sleeps shorter than this are skipped

VARIABLES tr, i, s

P == Batch[tr].p
Evs == Batch[tr].ev

(* What a federate under decentralized coordination (p.fed = 2) knows of its network inputs: known[a], the tag up to
   which the messages for action a have been seen; ait[a], the intended tag of what is present; its, the intended tags of
   pending messages; vio, the reactions that are late because of a message that is; wire, messages on their way; pj, late
   messages that have yet to be seen to have been late on arrival; left, when the last reaction ended; heard, when the last message came; begun,
   when the tags so far can have begun. *)
Begin0(p) == Start(p) @@ [known |-> [a \in 1..Len(p.ac) |-> NEVER], ait |-> [a \in 1..Len(p.ac) |-> NEVER], its |-> {}, vio |-> {}, inh |-> {},
                          wire |-> [a \in 1..Len(p.ac) |-> <<>>], pj |-> {}, left |-> 0, heard |-> 0, begun |-> {}]

Flag(st, f) == [st EXCEPT !.flags = @ \cup {f}]
FlagIf(c, st, f) == IF c THEN Flag(st, f) ELSE st

\* The stop tag that the RTI has granted to a federate (pend) takes effect when the federate gets there.
Granted(st, tg) == IF LE(st.pend, tg) THEN [st EXCEPT !.stop = TMin(@, st.pend)] ELSE st
\* The intended tags of the messages that are there at a tag; reactions to late ones are late themselves.
Intended(p, st) ==
  LET here == {z \in st.its : z.tg = st.cur}
  IN [st EXCEPT !.its = @ \ here, !.inh = {},
                !.ait = [a \in 1..Len(p.ac) |-> IF \E z \in here : z.a = a THEN (CHOOSE z \in here : z.a = a).it ELSE NEVER],
                !.known = [a \in 1..Len(p.ac) |-> IF \E z \in here : z.a = a /\ LT(z.it, st.cur) THEN TMax(@[a], st.cur) ELSE @[a]],
                !.vio = UNION {SetOf(p.ac[z.a].rs) : z \in {y \in here : LT(y.it, st.cur)}}]
RECURSIVE Adv(_, _, _)
Adv(p, st0, tg) ==
  LET st == Granted(st0, tg) IN
  IF st.cur = tg THEN st
  ELSE IF LT(tg, st.cur) THEN Flag(st, "backward")
  ELSE IF ~TagDone(st) THEN Flag(st, "incomplete")
  ELSE IF LE(st.stop, st.cur) THEN Flag(st, "afterstop")
  ELSE LET n == IF p.fed = 2 THEN Intended(p, Step(p, st)) ELSE Step(p, st)
       IN IF LT(tg, n.cur)     \* federates also visit tags at which nothing happens
          THEN (IF p.fed = 1 THEN Enter(p, Prepared(p, st), tg) ELSE Flag(st, "badtag"))
          ELSE IF n.cur # tg /\ ~(n.en \subseteq n.opt) THEN Flag(st, "missed")
          ELSE Adv(p, n, tg)

NOMSG == -7      \* in place of the value of a message: an announcement that there is none
\* Time bookkeeping shared by all events: time never goes back, and no watchdog is overdue.
Tick(p, st, ph) ==
  LET late == {w \in 1..Len(p.wd) : st.wdx[w] >= 0 /\ w \notin st.wrun
                 /\ ph > Max2(st.wdx[w], st.lastph) + SLACK
                 /\ (\A x \in st.run : p.rx[x].ro # p.wd[w].ro)
                 /\ (\A v \in st.wrun : p.wd[v].ro # p.wd[w].ro)}
  IN [FlagIf(p.jit = 0 /\ late # {} /\ ~st.wdoff, st, "wdmissed") EXCEPT !.lastph = Max2(@, ph)]

InOk(p, st, k) ==      \* k = <<kind, id, present, value, valid>>
  LET w == IF k[1] = "A" THEN st.pa[k[2]] ELSE st.pp[k[2]]
  IN w.pr = k[3] /\ (k[3] = 0 \/ w.v = k[4])

(* Decentralized coordination.  An input is known up to a tag if everything before it has been seen, if the sender has
   gone, or if the tag has come before anything can have been sent. *)
Pred(tg) == IF tg[2] > 0 THEN <<tg[1], tg[2] - 1>> ELSE <<tg[1] - 1, INF>>
KnownTo(p, st, prev, tg) == tg = <<0, 0>> \/ prev = Pred(tg) \/ \A a \in SetOf(p.lnet) : LE(Pred(tg), st.known[a])
Exempt(p, a, tg) == \/ p.ac[a].dly = 0 /\ tg = <<0, 0>>
                    \/ p.ac[a].dly > 0 /\ tg[1] < p.ac[a].dly
\* The earliest that the tag of a reaction can have begun.
From(p, prev, st, e) == Max2(e.t + (IF KnownTo(p, st, prev.cur, <<e.t, e.m>>) THEN 0 ELSE p.sta), prev.left)
Decentral(p, prev, st, e, nested) ==
  LET tg == <<e.t, e.m>>
      x == e.x
      R == p.rx[x]
      known == KnownTo(p, st, prev.cur, tg)
      \* The latest that it waits for anything that may still arrive.
      open == {a \in SetOf(p.lnet) : LT(st.known[a], tg) /\ ~Exempt(p, a, tg)}
      seen == tg = <<0, 0>> \/ \A a \in SetOf(p.lnet) : LE(Pred(tg), st.known[a])
      due == e.t + (IF seen /\ open = {} THEN 0 ELSE p.sta)
             + (IF open = {} THEN 0 ELSE 50000 + p.ac[CHOOSE a \in open : \A b \in open : p.ac[b].staa <= p.ac[a].staa].staa)
      unjust(z) == /\ LE(z.it, tg)
                   /\ \/ From(p, prev, st, e) > z.hp + SHORT
                      \/ z.it = tg /\ z.ph + SHORT < e.t + p.sta + p.ac[z.a].staa /\ LT(z.was, z.it)
  IN (IF ~known /\ e.ph + EARLY < e.t + p.sta THEN {"sta"} ELSE {})
     \cup (IF \E a \in SetOf(p.lnet) : /\ SetOf(p.ac[a].rs) \cap SetOf(R.pr) # {}
                                      /\ LT(st.known[a], tg) /\ ~Exempt(p, a, tg)
                                      /\ e.ph + EARLY < e.t + p.sta + p.ac[a].staa THEN {"assumed"} ELSE {})
     \cup (IF p.lax = 0 /\ tg # <<0, 0>> /\ e.ph > Max2(Max2(prev.left, st.heard), due) + SHORT THEN {"slow"} ELSE {})
     \cup (IF p.lax = 0 /\ \E z \in st.pj : unjust(z) THEN {"unjust"} ELSE {})
     \cup (IF e.h = 2 /\ x \notin st.vio THEN {"stp"} ELSE {})
     \cup (IF e.h = 0 /\ x \in st.vio /\ R.stp = 1 THEN {"stp"} ELSE {})
     \cup (IF \E j \in 1..Len(e.it) : LET w == e.it[j] IN st.ait[w[1]] # <<w[2], w[3]>> THEN {"intended"} ELSE {})
     \cup (IF Len(e.it) # Cardinality({j \in 1..Len(e.inp) : e.inp[j][3] = 1 /\ (IF e.inp[j][1] = "A" THEN e.inp[j][2] \in SetOf(p.lnet)
                                                                       ELSE \E a \in SetOf(p.lnet) : p.ac[a].rp = e.inp[j][2])}) THEN {"intended"} ELSE {})
Reaction(p, st0, e) ==
  LET tg == <<e.t, e.m>>
      st == Adv(p, st0, tg)
      x == e.x
      R == p.rx[x]
      late == e.ph > e.t + R.dl
      nested == x \in st.run
      wait == Max2(e.t, st.lastph)
      f == (IF nested THEN (IF e.h # 1 THEN {"twice"} ELSE {} ) ELSE
              (IF x \notin st.en THEN {IF x \in st.done THEN "again" ELSE "notenabled"} ELSE {})
              \cup (IF SetOf(R.pr) \cap ((st.en \ st.opt) \cup st.run) # {} THEN {"precedence"} ELSE {})
              \cup (IF p.jit = 0 /\ e.h # 2 /\ R.dl >= 0 /\ (e.h = 1) # (R.dl = 0 \/ late) THEN {"deadline"} ELSE {})
              \cup (IF p.jit = 0 /\ e.ph > wait + SLACK THEN {"late"} ELSE {}))
           \cup (IF e.h = 1 /\ ~(R.dl = 0 \/ (R.dl > 0 /\ late)) THEN {"deadline"} ELSE {})
           \cup (IF p.fast = 0 /\ e.ph + EARLY < e.t THEN {"early"} ELSE {})
           \cup (IF \E j \in 1..Len(e.inp) : ~InOk(p, st, e.inp[j]) THEN {"inputs"} ELSE {})
           \cup (IF \E j \in 1..Len(e.inp) : e.inp[j][5] # 1 THEN {"deadvalue"} ELSE {})
           \cup (IF st.sv[R.ro] # <<e.sv[1], e.sv[2]>> THEN {"statevar"} ELSE {})
           \cup (IF \E y \in st.run : y # x /\ p.rx[y].ro = R.ro THEN {"mutex"} ELSE {})
           \cup (IF \E w \in st.wrun : p.wd[w].ro = R.ro THEN {"wdmutex"} ELSE {})
           \cup (IF p.fed = 2 THEN Decentral(p, st0, st, e, nested) ELSE {})
      g == Tick(p, st, e.ph)
      \* What need not run does not run any more once something that depends on it does.
      gone == SetOf(R.pr) \cap st.opt \cap st.en
  IN IF st.flags # {} THEN st
     ELSE [(IF nested THEN [g EXCEPT !.nest = @ \cup {x}] ELSE Begin([g EXCEPT !.en = @ \ gone], x)) EXCEPT !.flags = @ \cup f,
             !.pj = {z \in @ : LT(tg, z.it)}, !.begun = IF p.fed = 2 /\ (st0.cur # tg \/ @ = {}) THEN @ \cup {[tg |-> tg, from |-> From(p, st0, st, e)]} ELSE @, !.inh = IF x \in st.vio /\ e.h # 2 THEN @ \cup {x} ELSE @]
\* What a late reaction triggers is late too, unless its own handler has dealt with that.
Ended(p, st, e) ==
  LET n == End(Tick(p, st, e.ph), e.x)
  IN IF p.fed # 2 THEN n
     ELSE [n EXCEPT !.left = Max2(@, e.ph),
             !.vio = IF e.x \in st.inh THEN @ \cup UNION {SetOf(p.po[o].rs) : o \in {q \in 1..Len(p.po) : e.x \in SetOf(p.po[q].wr) /\ st.pp[q].pr = 1}} ELSE @]

Schedule(p, st0, e) ==
  LET st == Adv(p, st0, <<e.t, e.m>>)
      \* The stop tag moves when the runtime finds nothing to do, which shows here for asynchronous calls.
      seen == <<e.st[1], e.st[2]>>
      prep == Prepared(p, st)
      st1 == IF seen # st.stop /\ ((TagDone(st) /\ prep.stop = seen) \/ seen = st.pend) THEN [st EXCEPT !.stop = seen] ELSE st
      r == Sched(p, st1, e.a, e.d, e.v, e.p)
      f == (IF seen # st1.stop THEN {"stoptag"} ELSE {})
           \cup (IF e.ret > 0 /\ r.r # "ins" THEN {"schedret"} ELSE {})
           \cup (IF e.ret < 0 THEN {"schedret"} ELSE {})
           \cup (IF p.jit = 0 /\ e.p > Max2(st.lastph, e.at) + SLACK THEN {"late"} ELSE {})
  IN IF st.flags # {} THEN st ELSE [Tick(p, r.s, e.p) EXCEPT !.flags = @ \cup f]

Stop(p, st0, e) ==
  LET st == Adv(p, st0, <<e.t, e.m>>)
      n == RequestStop(st)
      seen == <<e.st[1], e.st[2]>>
  IN IF st.flags # {} THEN st
     \* A call that finds another one in progress leaves it to that one.
     ELSE IF e.o > 0 /\ seen = st.stop THEN Tick(p, st, e.ph)
     ELSE FlagIf(seen # n.stop, Tick(p, n, e.ph), "stoptag")

\* Is value v, freed at tag tg, still needed by an event or a reaction that has yet to read it?
FreeLive(p, st, v, tg) ==
  \/ LET n == IF TagDone(st) THEN EndTag(p, st) ELSE st     \* transitions with reset drop events
     IN \/ \E e \in n.q : e.k = "A" /\ e.v = v /\ LT(tg, TagOf(e))
        \/ \E e \in n.sus : e.k = "A" /\ e.v = v
  \/ /\ st.cur = tg
     /\ \/ \E a \in 1..Len(p.ac) : st.pa[a].pr = 1 /\ st.pa[a].v = v /\ st.pa[a].v # 0
             /\ SetOf(p.ac[a].rd) \cap (st.en \cup st.run) # {}
        \/ \E o \in 1..Len(p.po) : st.pp[o].pr = 1 /\ st.pp[o].v = v
             /\ SetOf(p.po[o].rd) \cap (st.en \cup st.run) # {}
             /\ SetOf(p.po[o].wr) \cap st.run = {}   \* a writer may be replacing the value it sent before

RECURSIVE RunOut(_, _)
RunOut(p, st) ==      \* the remaining tags, none of which may have had anything to do
  IF ~TagDone(st) THEN Flag(st, "incomplete")
  ELSE IF LE(st.stop, st.cur) THEN st
  ELSE LET n == Step(p, st) IN IF n.cur = FOREVER THEN Flag(st, "endearly") ELSE RunOut(p, n)
Finish(p, st0, e) ==   \* the program ended by itself
  LET st == RunOut(p, Granted(Tick(p, st0, e.ph), FOREVER))
  IN IF st.flags # {} THEN st
     ELSE [st EXCEPT !.wdoff = TRUE, !.q = {}, !.sus = {}, !.kept = {g.v : g \in {f \in st.q \cup st.sus : f.k = "A"}}, !.flags = @ \cup
            (IF p.fast = 0 /\ st.lostph + (IF p.fed = 2 THEN SLACK ELSE LATENCY) < st.stop[1] THEN {"lostmsg"} ELSE {})
            \cup (IF p.fed = 2 /\ \E a \in SetOf(p.lnet) : LET w == SelectSeq(st.wire[a], LAMBDA x : x.v # NOMSG) IN w # <<>> /\ Head(w).ph + LATENCY < st.stop[1] THEN {"lostmsg"} ELSE {})
            \cup (IF p.jit = 0 /\ p.fast = 0 /\ e.ph > Max2(st0.lastph, st.stop[1]) + SLACK /\ p.wdlag = 0 THEN {"late"} ELSE {})
            \cup (IF p.fast = 0 /\ e.ph + EARLY < st.stop[1] THEN {"early"} ELSE {})]

Over(p, st, e) ==      \* after termination
  LET leaked == (st.alloc \ st.freed) \ st.kept IN   \* events that never happened keep their values
   FlagIf(leaked # {} /\ p.leak = 1, st, "leak")

(* A federate: a message for tag <<e.t, e.m>> has been sent to it.  Messages of one connection keep their
   order: if there is one for that tag already (as a delay maps all microsteps of a time to one tag), the
   new one follows a microstep later. *)
RECURSIVE FreeTag(_, _, _)
FreeTag(st, a, tg) == IF \E x \in st.q : x.k = "A" /\ x.i = a /\ TagOf(x) = tg THEN FreeTag(st, a, <<tg[1], tg[2] + 1>>) ELSE tg
Net(p, st, e) ==
  LET phys == e.ph >= 0      \* over a physical connection, for the tag at which it has been seen to arrive
      tg == IF phys THEN <<e.t, e.m>> ELSE FreeTag(st, e.a, <<e.t, e.m>>)
      new == ActiveRx(p, st, p.ac[e.a].rs)
  IN IF phys /\ (e.t < e.ph \/ LE(tg, st.cur) \/ (p.jit = 0 /\ e.t > Max2(e.ph + LATENCY, st.lastph + SLACK))) THEN Flag(st, "arrival")
     ELSE IF LT(TMin(st.stop, st.pend), tg) THEN st
     ELSE IF LT(tg, st.cur) THEN Flag(st, "tardy")
     ELSE IF tg = st.cur
     THEN [st EXCEPT !.pa[e.a] = [pr |-> 1, v |-> e.v], !.en = @ \cup new, !.risk = IF @ > 0 /\ tg = st.pend THEN 2 ELSE @,
                     !.flags = @ \cup (IF st.pa[e.a].pr = 1 \/ new \cap (st.run \cup st.done) # {} THEN {"tardy"} ELSE {})]
     ELSE [st EXCEPT !.q = @ \cup {Ev(tg, "A", e.a, e.v)}, !.risk = IF @ > 0 /\ tg = st.pend THEN 2 ELSE @]
(* Decentralized coordination: v has been sent for tag it. *)
Sent(p, st, e) == IF LT(p.tmo2, e.it) THEN st ELSE [st EXCEPT !.wire[e.a] = Append(@, [v |-> e.v, it |-> e.it, ph |-> e.ph])]
(* A message has been read: its header at time hp, so that it is not to be overtaken by its tag any more.  It has been
   seen to be handled at <<e.t, e.m>> (e.t = -1: not at all). *)
Arrived(p, st, e) ==
  LET a == e.a
      w == st.wire[a]
      it == e.it
      base == FreeTag(st, a, it)
      at == <<e.t, e.m>>
      new == ActiveRx(p, st, p.ac[a].rs)
      pop == IF w = <<>> THEN st ELSE [st EXCEPT !.wire[a] = Tail(@), !.known[a] = TMax(@, it), !.heard = Max2(@, e.ph)]
      late == [a |-> a, it |-> it, hp |-> e.hp, ph |-> e.ph, was |-> st.known[a]]
  IN IF w = <<>> \/ Head(w).v # e.v \/ Head(w).it # it THEN Flag(st, "badmsg")
     ELSE IF e.t = -1
     THEN \* Nothing is taken from that sender any more.
          [pop EXCEPT !.heard = INF, !.lostph = IF ~LT(st.stop, base) /\ e.hp < @ THEN e.hp ELSE @,
                      !.known = [b \in 1..Len(p.ac) |-> IF p.ac[b].src = p.ac[a].src THEN TMax(@[b], st.stop) ELSE @[b]]]
     ELSE IF at = base
     THEN IF LT(at, st.cur) THEN Flag(st, "backward")
          ELSE IF at = st.cur
          THEN [pop EXCEPT !.pa[a] = [pr |-> 1, v |-> e.v], !.en = @ \cup new, !.ait[a] = it,
                           !.flags = @ \cup (IF st.pa[a].pr = 1 \/ new \cap (st.run \cup st.done) # {} THEN {"tardy"} ELSE {})]
          ELSE [pop EXCEPT !.q = @ \cup {Ev(at, "A", a, e.v)}, !.its = @ \cup {[a |-> a, tg |-> at, it |-> it]}]
     ELSE \* Late: visibly so, and no later than necessary.
          [pop EXCEPT !.q = @ \cup {Ev(at, "A", a, e.v)}, !.its = @ \cup {[a |-> a, tg |-> at, it |-> it]},
             !.known[a] = TMax(@, at),     \* what comes next cannot come before it
             !.pj = IF LT(st.cur, it) THEN @ \cup {late} ELSE @,
             !.flags = @ \cup (IF LE(at, it) \/ LE(at, st.cur) \/ FreeTag(st, a, at) # at THEN {"arrival"} ELSE {})
                         \cup (IF p.lax = 0 /\ at[1] > Max2(e.hp + SHORT, st.cur[1]) THEN {"arrival"} ELSE {})
                         \cup (IF p.lax = 0 /\ \E b \in st.begun : LE(it, b.tg) /\ b.from > e.hp + SHORT THEN {"unjust"} ELSE {})
                         \cup (IF p.lax = 0 /\ st.cur = it /\ e.ph + SHORT < it[1] + p.sta + p.ac[a].staa /\ LT(st.known[a], it) THEN {"unjust"} ELSE {})]
Silent(p, st, e) == [st EXCEPT !.wire[e.a] = Append(@, [v |-> NOMSG, it |-> e.it, ph |-> 0])]
Known(p, st0, e) ==
  LET b == IF e.ab = 1 /\ Len(e.as) = 1 THEN e.as[1] ELSE 0
      bad == e.ab = 1 /\ (b = 0 \/ st0.wire[b] = <<>> \/ Head(st0.wire[b]).v # NOMSG \/ Head(st0.wire[b]).it # e.it)
      st == IF bad \/ b = 0 THEN st0 ELSE [st0 EXCEPT !.wire[b] = Tail(@)]
  IN IF bad THEN Flag(st0, "badmsg") ELSE
            [st EXCEPT !.heard = Max2(@, e.ph), !.known = [a \in 1..Len(p.ac) |-> IF a \in SetOf(e.as) THEN TMax(@[a], e.it) ELSE @[a]]]
(* The federate may have been granted the stop tag before it knew that it is one. *)
FedStop(p, st, e) == [FlagIf(LE(<<e.t, e.m>>, st.cur), st, "stoppast") EXCEPT !.pend = TMin(@, <<e.t, e.m>>),
                     !.risk = IF ~LE(<<e.t, e.m>>, st.gtag) THEN 0
                              ELSE IF \E x \in st.q : x.k = "A" /\ x.i \in SetOf(p.net) /\ TagOf(x) = <<e.t, e.m>> THEN 2 ELSE 1]

Proc(p, st, e) ==
  CASE e.k = "r" -> Reaction(p, st, e)
    [] e.k = "x" -> IF e.x \in st.nest THEN [st EXCEPT !.nest = @ \ {e.x}] ELSE Ended(p, st, e)
    [] e.k = "p" -> SetPort(p, st, e.p, e.v)
    [] e.k = "s" -> Schedule(p, st, e)
    [] e.k = "stop" -> Stop(p, st, e)
    [] e.k = "net" -> Net(p, st, e)
    [] e.k = "fs" -> Sent(p, st, e)
    [] e.k = "fa" -> Silent(p, st, e)
    [] e.k = "dm" -> Arrived(p, st, e)
    [] e.k = "known" -> Known(p, st, e)
    [] e.k = "plost" -> [st EXCEPT !.lostph = IF e.ph < @ THEN e.ph ELSE @]
    [] e.k = "fstop" -> FedStop(p, st, e)
    [] e.k = "ftag" -> [st EXCEPT !.gtag = TMax(@, <<e.t, e.m>>)]
    [] e.k = "mode" -> SetMode(p, st, e.md, e.how)
    [] e.k = "sv" -> [st EXCEPT !.sv[p.rx[e.x].ro][e.j] = e.v]
    [] e.k = "chk" -> FlagIf((e.ret = 1) # (e.ph > st.cur[1] + p.rx[e.x].dl), st, "checkdeadline")
    [] e.k = "mit" -> FlagIf((\E j \in 1..Len(e.all) :
                               (st.pp[e.all[j]].pr = 1) # (\E l \in 1..Len(e.ch) : e.ch[l] = j - 1))
                             \/ Len(e.ch) # Cardinality({jj \in 1..Len(e.all) : st.pp[e.all[jj]].pr = 1})
                             \/ (e.ord = 1 /\ \E l \in 1..(Len(e.ch) - 1) : e.ch[l] >= e.ch[l + 1]), st, "multiport")
    [] e.k = "wds" -> LET a == Adv(p, st, <<e.t, e.m>>) IN
                      IF a.flags # {} THEN a ELSE [Tick(p, a, e.ph) EXCEPT !.wdx[e.w] = a.cur[1] + p.wd[e.w].min + e.d]
    [] e.k = "wdp" -> [Tick(p, st, e.ph) EXCEPT !.wdx[e.w] = -1]
    [] e.k = "wdh" -> LET f == (IF st.wdx[e.w] < 0 THEN {"wdunexpected"} ELSE
                                IF e.ph < st.wdx[e.w] THEN {"wdearly"} ELSE {})
                               \cup (IF \E x \in st.run : p.rx[x].ro = p.wd[e.w].ro THEN {"wdmutex"} ELSE {})
                      IN [Tick(p, [st EXCEPT !.wrun = @ \cup {e.w}], e.ph) EXCEPT !.wdx[e.w] = -1, !.flags = @ \cup f]
    [] e.k = "wdx" -> [Tick(p, st, e.ph) EXCEPT !.wrun = @ \ {e.w}]
    [] e.k = "alloc" -> [st EXCEPT !.alloc = @ \cup {e.v}]
    [] e.k = "free" -> [st EXCEPT !.freed = @ \cup {e.v},
                          !.flags = @ \cup (IF e.ok = 1 /\ e.v \notin st.freed THEN {} ELSE {"doublefree"})
                                      \cup (IF FreeLive(p, st, e.v, <<e.t, e.m>>) THEN {"freelive"} ELSE {})]
    [] e.k = "copy" -> FlagIf(e.ok # 1, st, "deadvalue")
    [] e.k = "wc" -> \* a writable copy: the value itself only if nobody else may still use it
         FlagIf(e.v = e.of /\ (\E o \in 1..Len(p.po) : st.pp[o].pr = 1 /\ st.pp[o].v = e.of
                                 /\ {y \in SetOf(p.po[o].rd) : p.rx[y].ro # p.rx[e.x].ro} \cap (st.en \cup st.run) # {}), st, "sharedcopy")
    [] e.k = "end" -> Finish(p, st, e)
    [] e.k = "over" -> Over(p, st, e)
    [] OTHER -> Flag(st, "unknown")

Init == /\ tr \in 1..Len(Batch)
        /\ i = 1
        /\ s = Begin0(P)
Next == /\ i <= Len(Evs)
        /\ LET m == Proc(P, s, Evs[i])
               n == IF m.flags # {} /\ m.risk = 2 THEN [m EXCEPT !.flags = {"stoplost"}] ELSE m
               stop == n.flags # {} \/ i = Len(Evs)
           IN /\ i' = IF n.flags # {} THEN Len(Evs) + 1 ELSE i + 1
              /\ s' = n
              /\ (stop => PrintT(<<"VERDICT", Batch[tr].id, n.flags, i>>))
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i, s>>
=============================================================================
