------------------------------- MODULE MCRTI -------------------------------
(***************************************************************************)
(* The RTI together with federates that keep to the protocol: all          *)
(* behaviours of small federations.  Checks that the rules of RTI, which   *)
(* the real RTI is checked against (TraceRTI), are strong enough for what  *)
(* users rely on: no federate ever receives a message for a tag that it    *)
(* has completed, and every federation runs to its stop tag.               *)
(*                                                                         *)
(* A federate reads what the RTI writes at once; this loses nothing since  *)
(* what it writes itself may stay unread arbitrarily long.                 *)
(***************************************************************************)
EXTENDS RTI
CONSTANTS Topos, T, Steps, Urgent
\* Topos: federations to explore; T: the stop time.  Urgent: federates act without delay, only reading
\* at the RTI takes time; since what a federate writes may stay unread, what is lost are the behaviours
\* in which a federate first receives more before it says what it wants.
VARIABLES p, s, up, F, bad, last
vars == <<p, s, up, F, bad, last>>
STOP == <<T, 0>>
Dep(l) == l.d = -1 /\ l.f > l.t
InC(pp) == InCycle(pp)

Fed0(pp) == [done |-> NEVER, net |-> NEVER, fresh |-> TRUE, g |-> NEVER, pt |-> NEVER, in |-> {}, pts |-> {},
             heard |-> [f \in Feds(pp) |-> NEVER], cur |-> NEVER, outs |-> <<>>, gone |-> FALSE]
S0(pp) == [done |-> [f \in Feds(pp) |-> NEVER], net |-> [f \in Feds(pp) |-> NEVER], inf |-> [f \in Feds(pp) |-> FALSE],
           fly |-> [f \in Feds(pp) |-> {}], gone |-> {}, stop |-> FOREVER,
           tag |-> [f \in Feds(pp) |-> NEVER], ptag |-> [f \in Feds(pp) |-> NEVER]]
Init == /\ p \in {t @@ [cl |-> Close(Zero(t))] : t \in Topos}
        /\ s = S0(p) /\ up = [f \in Feds(p) |-> <<>>] /\ F = [f \in Feds(p) |-> Fed0(p)] /\ bad = {} /\ last = <<>>

HasUp(f) == Into(p, f) # {}
Next1(f) == MinOf({STOP} \cup {t \in SetOf(p.ev[f]) \cup F[f].in \cup F[f].pts : LT(F[f].done, t)})
Idle(f) == ~F[f].gone /\ F[f].cur = NEVER
Granted(f, n) == ~HasUp(f) \/ LE(n, F[f].g) \/ n = F[f].pt
Send(f, m) == up' = [up EXCEPT ![f] = Append(@, m)]

CanNet(f) == Idle(f) /\ (HasUp(f) => ~Granted(f, Next1(f))) /\ (F[f].fresh \/ F[f].net # Next1(f))
SendNet(f) == /\ CanNet(f)
              /\ LET n == Next1(f)
                 IN /\ Send(f, [k |-> "NET", t |-> n, d |-> 0])
                    /\ F' = [F EXCEPT ![f].net = n, ![f].fresh = FALSE]
                    /\ last' = <<f, "NET", n, 0>>
              /\ UNCHANGED <<p, s, bad>>
CanBegin(f) == Idle(f) /\ Granted(f, Next1(f)) /\ (HasUp(f) \/ (~F[f].fresh /\ F[f].net = Next1(f)))
Begin(f) == /\ CanBegin(f)
            /\ LET n == Next1(f)
               IN /\ F' = [F EXCEPT ![f].cur = n, ![f].outs = SelectSeq(p.lk, LAMBDA l : l.f = f /\ LE(Delay(n, l.d), STOP) /\ Delay(n, l.d)[2] <= Steps)]
                  /\ last' = <<f, "BEGIN", n, 0>>
            /\ UNCHANGED <<p, s, up, bad>>
Prov(f) == HasUp(f) /\ LT(F[f].g, F[f].cur)
CycIn(f) == {l \in Into(p, f) : l.d = -1 /\ SameCycle(p, l.f, f)}
Known(f, l) == LE(F[f].cur, F[f].g) \/ LT(F[f].cur, F[f].pt) \/ LE(F[f].cur, F[f].heard[l.f])
\* Whether something is present at the current tag, otherwise only absent messages are sent.
Active(f) == F[f].cur = STOP \/ F[f].cur \in SetOf(p.ev[f]) \cup F[f].in
AllKnown(f) == Prov(f) => \A q \in CycIn(f) : Known(f, q)
\* Outputs are written in the order of the connections, those that depend on inputs (Dep) last.
CanOut(f) == F[f].cur # NEVER /\ \E j \in 1..Len(F[f].outs) : Dep(F[f].outs[j]) => AllKnown(f)
Out(f, k) == /\ CanOut(f)
             /\ LET j == CHOOSE j \in 1..Len(F[f].outs) : (Dep(F[f].outs[j]) => AllKnown(f)) /\ \A i \in 1..(j - 1) : ~(Dep(F[f].outs[i]) => AllKnown(f))
                    l == F[f].outs[j]
                IN /\ CASE k = "MSG" -> Active(f)
                         [] k = "ABS" -> l.d = -1 /\ SameCycle(p, f, l.t)
                         [] k = "NONE" -> l.d # -1 \/ ~SameCycle(p, f, l.t)
                   /\ F' = [F EXCEPT ![f].outs = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]
                   /\ (IF k = "NONE" THEN UNCHANGED up ELSE Send(f, [k |-> k, t |-> Delay(F[f].cur, l.d), d |-> l.t]))
                   /\ last' = <<f, k, Delay(F[f].cur, l.d), l.t>>
             /\ UNCHANGED <<p, s, bad>>
CanEnd(f) == F[f].cur # NEVER /\ F[f].outs = <<>> /\ AllKnown(f)
End(f) == /\ CanEnd(f)
          /\ LET c == F[f].cur
                 z == [k |-> "LTC", t |-> c, d |-> 0]
             IN /\ up' = [up EXCEPT ![f] = IF c = STOP THEN @ \o <<z, [k |-> "RESIGN", t |-> c, d |-> 0]>> ELSE Append(@, z)]
                /\ F' = [F EXCEPT ![f].done = c, ![f].cur = NEVER, ![f].fresh = TRUE, ![f].gone = (c = STOP),
                                  ![f].in = {t \in @ : LT(c, t)}, ![f].pts = {t \in @ : LT(c, t)}]
                /\ last' = <<f, "LTC", c, 0>>
          /\ UNCHANGED <<p, s, bad>>
Acts(f) == SendNet(f) \/ Begin(f) \/ End(f) \/ \E k \in {"MSG", "ABS", "NONE"} : Out(f, k)
Can(f) == CanNet(f) \/ CanBegin(f) \/ CanOut(f) \/ CanEnd(f)

(* ----------------------------------------------------------------- the RTI *)
Upd(st, f, m) ==
  CASE m.k = "NET" -> [st EXCEPT !.net[f] = m.t, !.inf[f] = TRUE]
    [] m.k = "LTC" -> [st EXCEPT !.done[f] = m.t, !.inf[f] = FALSE, !.fly[f] = {t \in @ : LT(m.t, t)}]
    [] m.k = "MSG" -> IF m.d \in st.gone THEN st ELSE [st EXCEPT !.fly[m.d] = @ \cup {m.t}]
    [] m.k = "RESIGN" -> [st EXCEPT !.gone = @ \cup {f}]
    [] OTHER -> st
\* A federate that a PTAG waits for, because it is part of the same cycle.
Asked(pp, st, E, f) ==
  {g \in {st.ptag[x] : x \in {x \in Feds(pp) : x \notin st.gone /\ LT(st.done[x], st.ptag[x]) /\ LT(st.tag[x], st.ptag[x])
                                               /\ \E l \in OutOf(pp, f) : l.t = x /\ l.d = -1}} :
     f \notin st.gone /\ f \in InC(pp) /\ LT(st.tag[f], g) /\ LT(st.ptag[f], g) /\ LT(st.done[f], g)
     /\ Bound(pp, st, E, f) = g /\ LT(g, Strict(pp, st, E, f))}
RECURSIVE Grants(_, _, _)
Grants(pp, st, out) ==
  LET E == Earliest(pp, st, FALSE)
      tg == {f \in Feds(pp) : OwesTAG(pp, st, E, f)}
      pg == {f \in Feds(pp) : OwesPTAG(pp, st, E, f)}
      ag == {f \in Feds(pp) : Asked(pp, st, E, f) # {}}
      one(f, k, g) == Grants(pp, IF k = "TAG" THEN [st EXCEPT !.tag[f] = g] ELSE [st EXCEPT !.ptag[f] = g], Append(out, [k |-> k, f |-> f, t |-> g]))
  IN IF tg # {} THEN LET f == CHOOSE f \in tg : TRUE IN one(f, "TAG", Want(st, f))
     ELSE IF pg # {} THEN LET f == CHOOSE f \in pg : TRUE IN one(f, "PTAG", Want(st, f))
     ELSE IF ag # {} THEN LET f == CHOOSE f \in ag : TRUE IN one(f, "PTAG", CHOOSE g \in Asked(pp, st, E, f) : TRUE)
     ELSE [st |-> st, out |-> out]
RECURSIVE Apply(_, _)
Apply(FF, out) ==
  IF out = <<>> THEN FF
  ELSE LET o == Head(out)
       IN Apply(IF o.k = "TAG" THEN [FF EXCEPT ![o.f].g = TMax(@, o.t)]
                ELSE [FF EXCEPT ![o.f].pt = TMax(@, o.t), ![o.f].pts = IF LT(FF[o.f].done, o.t) THEN @ \cup {o.t} ELSE @], Tail(out))
Unsafe(pp, st, out) == \E j \in 1..Len(out) : ~IF out[j].k = "TAG" THEN SafeTAG(pp, st, out[j].f, out[j].t) ELSE SafePTAG(pp, st, out[j].f, out[j].t)
Rd(f) ==
  /\ up[f] # <<>>
  /\ LET m == Head(up[f])
         st == Upd(s, f, m)
         FM == IF m.d = 0 \/ F[m.d].gone THEN F
               ELSE [F EXCEPT ![m.d].in = IF m.k = "MSG" THEN @ \cup {m.t} ELSE @, ![m.d].heard[f] = TMax(@, m.t)]
         gr == Grants(p, st, <<>>)
     IN /\ s' = gr.st
        /\ F' = Apply(FM, gr.out)
        /\ bad' = bad \cup (IF m.k = "MSG" /\ ~F[m.d].gone /\ LE(m.t, F[m.d].done) THEN {"tardy"} ELSE {})
                      \cup (IF m.k = "MSG" /\ ~F[m.d].gone /\ LE(m.t, F[m.d].g) THEN {"aftertag"} ELSE {})
                      \cup (IF Unsafe(p, st, gr.out) THEN {"unsafe"} ELSE {})
        /\ up' = [up EXCEPT ![f] = Tail(@)]
        /\ last' = <<f, "RD", m.t, 0>>
  /\ UNCHANGED p
Over == \A f \in Feds(p) : F[f].gone /\ up[f] = <<>>
First == {f \in Feds(p) : Can(f) /\ \A g \in 1..(f - 1) : ~Can(g)}
Next == \/ \E f \in (IF Urgent THEN First ELSE Feds(p)) : Acts(f)
        \/ (~Urgent \/ First = {}) /\ \E f \in Feds(p) : Rd(f)
        \/ Over /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Good == bad = {}
View == <<p, s, up, F, bad>>

(* ----------------------------------------------------------------- federations *)
Pairs(n) == {<<a, b>> \in (1..n) \X (1..n) : a # b}
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
Mk(n, lk, ev) == [n |-> n, lk |-> lk, ev |-> ev]
LinkSets(n, k, D) == UNION {{Seqs({[f |-> q[1], t |-> q[2], d |-> df[q]] : q \in Q}) : df \in [Q -> D]} : Q \in {Q \in SUBSET Pairs(n) : Cardinality(Q) \in 1..k}}
\* No zero-delay connection between two different cycles, no cycle broken by nothing.
Legal(t) == LET c == Close(Zero(t)) IN \A l \in SetOf(t.lk) : ~(l.d = -1 /\ <<l.f, l.f>> \in c /\ <<l.t, l.t>> \in c /\ <<l.t, l.f>> \notin c)
Evs2 == {<< <<0, 0>> >>, << <<0, 0>>, <<1, 0>> >>}
Two == {t \in {Mk(2, l, <<e1, e2>>) : l \in LinkSets(2, 2, {-1, 0, 1}), e1 \in Evs2, e2 \in Evs2} : Legal(t)}
E0 == << <<0, 0>> >>
L(a, b, d) == [f |-> a, t |-> b, d |-> d]
Three == {Mk(3, l, <<E0, E0, E0>>) : l \in {
    <<L(1,2,-1), L(2,3,-1)>>, <<L(1,2,1), L(2,3,-1)>>, <<L(1,2,-1), L(2,1,-1), L(3,1,-1)>>, <<L(1,2,-1), L(2,1,-1), L(1,3,0)>>,
    <<L(1,2,-1), L(2,3,-1), L(3,1,-1)>>, <<L(1,2,-1), L(2,3,-1), L(3,1,1)>>, <<L(1,2,0), L(2,3,0), L(3,1,0)>> }}
\* All federations of three up to three connections, in which everybody is connected.
Connected(t) == \A f \in Feds(t) : \E l \in SetOf(t.lk) : f \in {l.f, l.t}
AllThree == {t \in {Mk(3, l, <<E0, E0, E0>>) : l \in LinkSets(3, 3, {-1, 1})} : Legal(t) /\ Connected(t)}
=============================================================================
