------------------------------ MODULE TraceRTI ------------------------------
(* Checks what the real RTI read from and wrote to its connections against RTI. *)
EXTENDS RTI, Json, IOUtils, TLCExt
Batch == JsonDeserialize(IOEnv.LFV_BATCH)
VARIABLES tr, i, s
P == Batch[tr].p
Evs == Batch[tr].ev
SEC == 1000000000

Flag(st, f) == [st EXCEPT !.flags = @ \cup {f}]
FlagIf(c, st, f) == IF c THEN Flag(st, f) ELSE st
Fl(st, S) == [st EXCEPT !.flags = @ \cup S]

Start(p) == [flags |-> {}, done |-> [f \in Feds(p) |-> NEVER], net |-> [f \in Feds(p) |-> NEVER],
             inf |-> [f \in Feds(p) |-> FALSE], stop |-> FOREVER,
             fly |-> [f \in Feds(p) |-> {}], gone |-> {}, failed |-> {}, tag |-> [f \in Feds(p) |-> NEVER], ptag |-> [f \in Feds(p) |-> NEVER],
             q |-> [f \in Feds(p) |-> <<>>],
             joined |-> {}, nbr |-> {}, owe |-> [c \in 0..(p.conns - 1) |-> <<>>], heard |-> {}, closed |-> {},
             ts |-> [f \in Feds(p) |-> <<-1, 0>>], started |-> {}, start |-> <<-1, 0>>,
             port |-> [f \in Feds(p) |-> -1], sure |-> {}, ask |-> [f \in Feds(p) |-> <<>>],
             prop |-> [f \in Feds(p) |-> NEVER], asked |-> {}, grant |-> {}, gtag |-> NEVER, at |-> 0]

Max(S) == IF S = {} THEN NEVER ELSE CHOOSE x \in S : \A y \in S : LE(y, x)
Live(p, st) == {f \in Feds(p) : f \notin st.gone}
Proposals(p, st) == {st.prop[f] : f \in {g \in Feds(p) : st.prop[g] # NEVER}}
Remove(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

(* ------------------------------------------------------------ what the RTI reads *)
\* The answer to the first message of a connection: 255 for ACK, 256 + reason for a rejection.
Answer(p, st, e) ==
  IF e.k = "IDS"
  THEN IF st.joined = Feds(p) THEN 257
       ELSE IF e.x # p.fid THEN 257
       ELSE IF e.a >= p.n THEN 259
       ELSE IF (e.a + 1) \in st.joined THEN 258
       ELSE 255
  ELSE IF e.k = "P2PID" \/ e.k = "P2PMSG" THEN 261
  ELSE IF e.k = "NONCE" THEN 263 ELSE 260
Read(p, st0, e) ==
  LET st == [st0 EXCEPT !.heard = @ \cup {e.c}]
      f == e.f
  IN
  IF e.c \notin st0.heard
  THEN LET a == Answer(p, st, e)
       IN [st EXCEPT !.owe[e.c] = <<a>>, !.joined = IF a = 255 THEN @ \cup {e.a + 1} ELSE @]
  ELSE
  CASE e.k = "NBR" -> [st EXCEPT !.nbr = @ \cup {f}]
    [] e.k = "UDP" -> st
    [] e.k = "TIME" -> [st EXCEPT !.ts[f] = e.t]
    [] e.k = "NET" -> [st EXCEPT !.net[f] = e.t, !.inf[f] = TRUE]
    [] e.k = "LTC" -> [st EXCEPT !.done[f] = e.t, !.inf[f] = FALSE, !.fly[f] = {m \in @ : LT(e.t, m)}]
    [] e.k \in {"MSG", "ABS"} ->
         IF e.d \in st.gone THEN st
         ELSE LET b == [st EXCEPT !.q[e.d] = Append(@, <<f, e.x, e.k, e.t>>)]
              IN IF e.k = "MSG" THEN [b EXCEPT !.fly[e.d] = @ \cup {e.t}] ELSE b
    [] e.k = "SREQ" -> [st EXCEPT !.prop[f] = TMax(@, e.t)]
    [] e.k = "SREP" -> [st EXCEPT !.prop[f] = TMax(@, e.t)]
    [] e.k = "RESIGN" -> [st EXCEPT !.gone = @ \cup {f}, !.q[f] = <<>>]
    [] e.k = "FAILED" -> [st EXCEPT !.gone = @ \cup {f}, !.failed = @ \cup {f}, !.q[f] = <<>>]
    [] e.k = "ADV" -> [st EXCEPT !.port[f] = e.a]
    [] e.k = "QUERY" -> [st EXCEPT !.ask[f] = Append(@, <<e.a + 1, IF (e.a + 1) \in st.sure THEN 1 ELSE 0>>)]
    [] e.k = "T3" -> st
    [] e.k = "EOF" -> st
    [] OTHER -> Flag(st, "unknown")

(* ------------------------------------------------------------ what the RTI writes *)
Forward(p, st, e) ==
  LET f == e.f
      q == st.q[f]
      hit == {k \in 1..Len(q) : q[k][2] = e.x /\ \A j \in 1..(k - 1) : q[j][1] # q[k][1]}
  IN IF hit = {} THEN Flag(st, "forward")
     ELSE LET k == CHOOSE k \in hit : TRUE
              z == [st EXCEPT !.q[f] = Remove(@, k)]
          IN Fl(z, (IF e.k = "MSG" /\ LE(e.t, st.tag[f]) /\ LT(e.t, st.stop) THEN {"aftertag"} ELSE {})
                   \cup (IF e.k = "MSG" /\ LT(e.t, st.ptag[f]) /\ LT(e.t, st.stop) THEN {"afterptag"} ELSE {}))
Pending(st, f, g, strictly) ==       \* messages read for f that the grant must not overtake
  \E k \in 1..Len(st.q[f]) : st.q[f][k][3] = "MSG" /\ (LT(st.q[f][k][4], g) \/ (~strictly /\ st.q[f][k][4] = g))
Write(p, st, e) ==
  LET f == e.f IN
  IF st.owe[e.c] # <<>>
  THEN LET got == IF e.k = "ACK" THEN 255 ELSE IF e.k = "REJECT" THEN 256 + e.a ELSE 0
       IN Fl([st EXCEPT !.owe[e.c] = <<>>],
             IF got = st.owe[e.c][1] THEN {}
             \* A connection that comes when all have joined may be turned away unread or read.
             ELSE {"join"})
  ELSE IF e.k = "REJECT"      \* unread
  THEN FlagIf(~(e.c \notin st.heard /\ st.joined = Feds(p) /\ e.a = 1), st, "join")
  ELSE IF f = 0 THEN Flag(st, "join")
  ELSE IF e.k = "TIME"
  THEN LET all == \A g \in Feds(p) : st.ts[g][1] >= 0
           want == LET m == Max({st.ts[g] : g \in Feds(p)}) IN <<m[1] + 1, m[2]>>
       IN Fl([st EXCEPT !.started = @ \cup {f}], IF f \notin st.started /\ all /\ e.t = want THEN {} ELSE {"start"})
  ELSE IF e.k = "ADDR"
  THEN IF st.ask[f] = <<>> THEN Flag(st, "address")
       ELSE LET a == st.ask[f][1]
            IN FlagIf(~(e.a = st.port[a[1]] \/ (e.a = -1 /\ a[2] = 0)), [st EXCEPT !.ask[f] = Tail(@)], "address")
  ELSE IF e.k \in {"T1", "T4", "FAILED"} THEN st
  ELSE IF f \notin st.started THEN Flag(st, "start")
  ELSE
  CASE e.k = "TAG" ->
         Fl([st EXCEPT !.tag[f] = TMax(@, e.t)],
            (IF SafeTAG(p, st, f, e.t) /\ ~Pending(st, f, e.t, FALSE) THEN {} ELSE {"unsafe"})
            \cup (IF LE(e.t, st.tag[f]) THEN {"regress"} ELSE {}))
    [] e.k = "PTAG" ->
         Fl([st EXCEPT !.ptag[f] = TMax(@, e.t)],
            (IF SafePTAG(p, st, f, e.t) /\ ~Pending(st, f, e.t, TRUE) THEN {} ELSE {"unsafeptag"})
            \cup (IF LE(e.t, st.tag[f]) \/ LE(e.t, st.ptag[f]) THEN {"regress"} ELSE {}))
    [] e.k \in {"MSG", "ABS"} -> Forward(p, st, e)
    [] e.k = "SREQ" ->
         Fl([st EXCEPT !.asked = @ \cup {f}],
            IF f \in st.asked \/ f \in st.grant \/ ~\E x \in Proposals(p, st) : x = e.t THEN {"stopreq"} ELSE {})
    [] e.k = "SGRANT" ->
         Fl([st EXCEPT !.grant = @ \cup {f}, !.gtag = e.t, !.stop = e.t, !.inf[f] = @ /\ LE(st.net[f], e.t)],
            IF f \in st.grant \/ (st.grant # {} /\ st.gtag # e.t) \/ e.t # Max(Proposals(p, st))
               \/ \E g \in Live(p, st) : st.prop[g] = NEVER THEN {"stopgrant"} ELSE {})
    [] OTHER -> Flag(st, "unknown")

(* ------------------------------------------------------------ when nothing is left to process *)
Quiet(p, st) ==
  LET E == Earliest(p, st, TRUE)
      all == st.started = Feds(p)
      live == Live(p, st)
      f == (IF \E c \in DOMAIN st.owe : st.owe[c] # <<>> THEN {"join"} ELSE {})
           \cup (IF (\A g \in Feds(p) : st.ts[g][1] >= 0) /\ ~all THEN {"start"} ELSE {})
           \cup (IF \E g \in live : st.q[g] # <<>> THEN {"lost"} ELSE {})
           \cup (IF \E g \in live : st.ask[g] # <<>> THEN {"address"} ELSE {})
           \cup (IF all /\ Informed(p, st) /\ \E g \in Feds(p) : OwesTAG(p, st, E, g) THEN {"stall"} ELSE {})
           \cup (IF all /\ Informed(p, st) /\ \E g \in Feds(p) : OwesPTAG(p, st, E, g) THEN {"stallptag"} ELSE {})
           \cup (IF all /\ Proposals(p, st) # {} /\ \E g \in live : st.prop[g] = NEVER /\ g \notin st.asked THEN {"stopnotasked"} ELSE {})
           \cup (IF all /\ Proposals(p, st) # {} /\ (\A g \in live : st.prop[g] # NEVER) /\ ~(live \subseteq st.grant) THEN {"stopnotgranted"} ELSE {})
  IN Fl([st EXCEPT !.sure = {g \in Feds(p) : st.port[g] >= 0}], f)

Proc(p, st, e) ==
  CASE e.op = "rd" -> IF e.f \in st.gone THEN st ELSE Read(p, st, e)     \* what follows a resignation does not count
    [] e.op = "wr" -> IF e.f \in st.gone THEN st ELSE Write(p, st, e)
    [] e.op = "quiet" -> Quiet(p, st)
    [] e.op = "garbled" -> Flag(st, "garbled")
    [] e.op = "shut" -> FlagIf(e.f # 0 /\ e.f \notin st.gone, st, "cut")
    [] e.op = "exit" -> FlagIf(st.gone # Feds(p) \/ ((e.a # 0) # (st.failed # {})), st, "exit")
    [] e.op = "stuck" -> Flag(st, "stuck")
    [] OTHER -> Flag(st, "unknown")

Init == tr \in 1..Len(Batch) /\ i = 1 /\ s = Start(P)
\* The rest of a history is checked too: what goes wrong first may break several properties.
Next == /\ i <= Len(Evs)
        /\ LET n == Proc(P, s, Evs[i])
               m == [n EXCEPT !.at = IF n.flags # {} /\ @ = 0 THEN i ELSE @]
           IN /\ i' = i + 1
              /\ s' = m
              /\ (i = Len(Evs) => PrintT(<<"VERDICT", Batch[tr].id, m.flags, m.at>>))
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, i, s>>
=============================================================================
