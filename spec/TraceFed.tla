------------------------------ MODULE TraceFed ------------------------------
(***************************************************************************)
(* What a federate owes the RTI and the others: checks the byte stream of  *)
(* a real federate, together with what it executes, against the rules      *)
(* that RTI and MCRTI assume of federates.                                 *)
(*                                                                         *)
(* Events  B/E  a reaction begins/ends at tag t                            *)
(*         snd  a reaction sends v to port a of federate d, delay dl       *)
(*         rd/wr  the federate has read/written a message of kind k        *)
(*         end  the federate has ended                                     *)
(***************************************************************************)
EXTENDS RTI, Json, IOUtils, TLCExt
Batch == JsonDeserialize(IOEnv.LFV_BATCH)
VARIABLES tr, i, s
P == Batch[tr].p
Evs == Batch[tr].ev
Fl(st, S) == [st EXCEPT !.flags = @ \cup S]

Start(p) == [flags |-> {}, at |-> 0, tag |-> NEVER, ptag |-> NEVER, net |-> NEVER, ltc |-> NEVER, stop |-> p.tmo, granted |-> FALSE,
             start |-> FALSE, ptags |-> {}, first |-> FOREVER, cur |-> NEVER, run |-> {}, out |-> <<>>, sent |-> {}, in |-> <<>>,
             req |-> NEVER, asked |-> NEVER, resigned |-> FALSE, done |-> FALSE]

(* ------------------------------------------------------------ reactions *)
Begin(p, st, e) ==
  LET t == e.t IN
  Fl([st EXCEPT !.cur = TMax(@, t), !.run = @ \cup {<<e.x, t>>}],
     (IF ~st.start THEN {"nostart"} ELSE {})
     \cup (IF p.up = 1 /\ LT(st.tag, t) /\ LT(st.ptag, t) THEN {"ungranted"} ELSE {})
     \cup (IF p.down = 1 /\ p.up = 0 /\ LT(st.net, t) THEN {"nonet"} ELSE {})
     \* A NET is a promise, unless something comes from other federates.
     \cup (IF p.down = 1 /\ LT(t, st.net) /\ t \notin st.ptags /\ LT(t, st.first) /\ t # st.stop THEN {"unpromised"} ELSE {})
     \cup (IF LE(t, st.ltc) THEN {"earlyltc"} ELSE {})
     \* From a request to stop until it is granted, no tag at which the federate may have to stop.
     \cup (IF ~st.granted /\ st.req # NEVER /\ LE(st.req, t) /\ t # p.tmo THEN {"stopheld"} ELSE {})
     \cup (IF LT(st.stop, t) THEN {"afterstop"} ELSE {})
     \cup (IF st.resigned THEN {"resigned"} ELSE {}))
End(p, st, e) == [st EXCEPT !.run = {z \in @ : z[1] # e.x}]
LAST == 1000000000     \* what a microstep that is as great as can be is recorded as
Send(p, st, e) ==
  LET g == Delay(e.t, e.dl)
      \* A later microstep may still send a message that the delay maps to the same tag.
      t == IF e.k = "ABS" /\ e.dl > 0 THEN <<g[1] - 1, LAST>> ELSE g
  IN [st EXCEPT !.out = Append(@, [k |-> e.k, d |-> e.d, a |-> e.a, t |-> t, v |-> e.v])]

(* ------------------------------------------------------------ messages *)
Remove(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Msg(p, st, e) ==
  LET same == {k \in 1..Len(st.out) : st.out[k].d = e.d /\ st.out[k].a = e.a /\ st.out[k].k = e.k}
      hit == {k \in same : st.out[k].t = e.t /\ st.out[k].v = e.v /\ \A j \in 1..(k - 1) : j \notin same \/ LT(st.stop, st.out[j].t)}
  IN IF hit = {} THEN Fl(st, {"badmsg"})
     ELSE Fl([st EXCEPT !.out = Remove(@, CHOOSE k \in hit : TRUE), !.sent = @ \cup {<<e.k, e.d, e.a, e.t>>}],
             (IF e.k = "MSG" /\ LT(p.tmo, e.t) THEN {"poststop"} ELSE {})
             \cup (IF e.z = 1 /\ IF e.k = "MSG" THEN \E m \in st.sent : m[1] = "ABS" /\ m[2] = e.d /\ m[3] = e.a /\ LE(e.t, m[4])
                                 ELSE <<"MSG", e.d, e.a, e.t>> \in st.sent THEN {"absmsg"} ELSE {}))
Unsent(st, t) == \E k \in 1..Len(st.out) : st.out[k].k = "MSG" /\ LE(st.out[k].t, t) /\ LE(st.out[k].t, st.stop)
Write(p, st, e) ==
  IF st.resigned THEN Fl(st, IF e.k \in {"SREP", "T3"} THEN {} ELSE {"resigned"}) ELSE   \* another thread answers
  CASE e.k \in {"IDS", "NBR", "UDP", "T3", "QUERY", "ADV"} -> st
    [] e.k = "TIME" -> Fl(st, IF st.start THEN {"badmsg"} ELSE {})
    [] e.k = "NET" -> Fl([st EXCEPT !.net = e.t],
                         (IF ~st.start THEN {"nostart"} ELSE {})
                         \* Nothing that may still run lies before a promise of what comes next.
                         \cup (IF st.run # {} THEN {"earlynet"} ELSE {})
                         \cup (IF Unsent(st, st.cur) THEN {"unsent"} ELSE {})
                         \cup (IF LT(e.t, st.ltc) \/ (e.t = st.ltc /\ LT(e.t, st.stop)) THEN {"badnet"} ELSE {}))
    [] e.k = "LTC" -> Fl([st EXCEPT !.ltc = TMax(@, e.t)],
                         (IF LE(e.t, st.ltc) THEN {"badltc"} ELSE {})
                         \cup (IF \E z \in st.run : LE(z[2], e.t) THEN {"earlyltc"} ELSE {})
                         \cup (IF Unsent(st, e.t) THEN {"earlyltc"} ELSE {})
                         \cup (IF p.up = 1 /\ LT(st.tag, e.t) /\ LT(st.ptag, e.t) THEN {"earlyltc"} ELSE {}))
    [] e.k \in {"MSG", "ABS"} -> Msg(p, st, e)
    [] e.k = "SREQ" -> Fl([st EXCEPT !.req = e.t], (IF st.req # NEVER \/ LE(e.t, st.cur) THEN {"badstop"} ELSE {}))
    [] e.k = "SREP" -> Fl([st EXCEPT !.req = e.t],
                          (IF st.asked = NEVER \/ st.req # NEVER \/ LT(e.t, st.asked) \/ LE(e.t, st.cur) THEN {"badstop"} ELSE {}))
    [] e.k = "RESIGN" -> Fl([st EXCEPT !.resigned = TRUE],
                            (IF st.run # {} THEN {"earlyresign"} ELSE {})
                            \cup (IF \E k \in 1..Len(st.out) : st.out[k].k = "MSG" /\ LE(st.out[k].t, st.stop) THEN {"unsent"} ELSE {}))
    [] OTHER -> Fl(st, {"unknown"})
Read(p, st, e) ==
  CASE e.k \in {"ACK", "ADDR", "T1", "T4"} -> st
    [] e.k = "TIME" -> [st EXCEPT !.start = TRUE]
    [] e.k = "TAG" -> [st EXCEPT !.tag = TMax(@, e.t)]
    [] e.k = "PTAG" -> [st EXCEPT !.ptag = TMax(@, e.t), !.ptags = @ \cup {e.t}]
    [] e.k = "MSG" -> [st EXCEPT !.first = TMin(@, e.t)]
    [] e.k = "ABS" -> st
    [] e.k = "SREQ" -> [st EXCEPT !.asked = e.t]
    [] e.k = "SGRANT" -> [st EXCEPT !.stop = IF LE(e.t, st.cur) THEN @ ELSE TMin(@, e.t), !.granted = TRUE]
    [] OTHER -> Fl(st, {"unknown"})
Over(p, st) ==
  Fl([st EXCEPT !.done = TRUE],
     IF ~st.resigned THEN {"noresign"} ELSE {})

Proc(p, st, e) ==
  CASE e.op = "B" -> Begin(p, st, e)
    [] e.op = "E" -> End(p, st, e)
    [] e.op = "snd" -> Send(p, st, e)
    [] e.op = "rd" -> Read(p, st, e)
    [] e.op = "wr" -> Write(p, st, e)
    [] e.op = "end" -> Over(p, st)
    [] OTHER -> Fl(st, {"unknown"})
Init == tr \in 1..Len(Batch) /\ i = 1 /\ s = Start(P)
Next == /\ i <= Len(Evs)
        /\ LET n == Proc(P, s, Evs[i])
               m == [n EXCEPT !.at = IF n.flags # {} /\ @ = 0 THEN i ELSE @]
           IN /\ i' = i + 1
              /\ s' = m
              /\ (i = Len(Evs) => PrintT(<<"VERDICT", Batch[tr].id, m.flags, m.at>>))
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i, s>>
=============================================================================
