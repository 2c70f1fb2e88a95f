---- MODULE Units ----
(* What the containers of the runtime mean, as abstract data types: priority queues are bags ordered by priority, hash sets
   are sets, hash maps functions, vectors sequences, mixed radix numbers counters.  And what the operations on times and
   tags mean: 64 bit times, which TLC has no integers for, are sequences of limbs (see Limbs below).
   Pure operators: Do(st, e) is the state after operation e, with flag "wrong" if its result is not one that is allowed. *)
EXTENDS Integers, Sequences, FiniteSets

Wrong(st) == [st EXCEPT !.flags = @ \cup {"wrong"}]
Res(st, e, ok) == IF ok THEN st ELSE Wrong(st)
Empty == [flags |-> {}, at |-> 0, n |-> 0, tq |-> {}, bq |-> {}, hs |-> {}, hm |-> {}, vec |-> <<>>]

(* ------------------------------------------------------------ queues ordered by tag *)
TLT(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])
Same(a, b) == a[2] = b[2] /\ a[3] = b[3]
MinTq(q) == {x \in q : \A y \in q : ~TLT(y, x)}
NONE == <<0, 0, 0>>
FOREVER3 == <<0, 2000000000, 1000000000>>
Hit(q, r) == {x \in q : <<x[1], x[2], x[3]>> = r}
Tag3(x) == <<0, x[2], x[3]>>
(* ------------------------------------------------------------ queues ordered by a number: <<queue, id, priority, key>> *)
InQ(st, q) == {x \in st.bq : x[1] = q}
MinBq(q) == {x \in q : \A y \in q : x[3] <= y[3]}
IdIn(s, r) == IF s = {} THEN r = 0 ELSE \E x \in s : x[2] = r

Range(s) == {s[k] : k \in 1..Len(s)}
Pad(v, n) == [k \in 1..(IF n > Len(v) THEN n ELSE Len(v)) |-> IF k <= Len(v) THEN v[k] ELSE 0]

(* ------------------------------------------------------------ mixed radix numbers: digits d, radixes r, permutation p *)
RECURSIVE Weight(_, _, _, _)
Weight(d, r, k, n) == IF k > n THEN 0 ELSE d[k] + r[k] * Weight(d, r, k + 1, n)
RECURSIVE Incr(_, _, _, _)
Incr(d, r, p, k) ==
  IF k > Len(d) THEN d
  ELSE LET j == p[k] + 1
       IN IF d[j] + 1 < r[j] THEN [d EXCEPT ![j] = @ + 1] ELSE Incr([d EXCEPT ![j] = 0], r, p, k + 1)
RECURSIVE Rows(_, _, _, _)
Rows(d, r, p, n) == IF n = 0 THEN <<>>
  ELSE <<<<Weight(d, r, 1, Len(d))>> \o [k \in 1..Len(d) |-> Weight(d, r, k, Len(d))] \o d>> \o Rows(Incr(d, r, p, 1), r, p, n - 1)

(* ------------------------------------------------------------ limbs *)
\* A time x is the number x + 2^63, in base 2^15, least significant limb first.
B == 32768
RECURSIVE AddC(_, _, _, _)
AddC(a, b, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == a[k] + b[k] + c IN <<s % B>> \o AddC(a, b, k + 1, s \div B)
Add(a, b) == AddC(a, b, 1, 0)
RECURSIVE SubC(_, _, _, _)
SubC(a, b, k, c) == IF k > Len(a) THEN <<>>
  ELSE LET s == a[k] - b[k] - c IN IF s < 0 THEN <<s + B>> \o SubC(a, b, k + 1, 1) ELSE <<s>> \o SubC(a, b, k + 1, 0)
Sub(a, b) == SubC(a, b, 1, 0)
RECURSIVE LessK(_, _, _)
LessK(a, b, k) == IF k = 0 THEN FALSE ELSE a[k] < b[k] \/ (a[k] = b[k] /\ LessK(a, b, k - 1))
Less(a, b) == LessK(a, b, Len(a))
RECURSIVE MulC(_, _, _, _)
MulC(a, m, k, c) == IF k > Len(a) THEN <<>> ELSE LET s == a[k] * m + c IN <<s % B>> \o MulC(a, m, k + 1, s \div B)
Mul(a, m) == MulC(a, m, 1, 0)          \* m < 2^15
RECURSIVE Muls(_, _)
Muls(a, ms) == IF ms = <<>> THEN a ELSE Muls(Mul(a, Head(ms)), Tail(ms))
Z5 == <<0, 0, 0, 0, 0>>
NEVER == Z5
FOREVER == <<32767, 32767, 32767, 32767, 15>>
MID == <<0, 0, 0, 0, 8>>               \* time 0
TOP == <<0, 0, 0, 0, 16>>
ONE == <<1, 0, 0, 0, 0>>
M0 == <<0, 0, 0>>
MMAX == <<32767, 32767, 3>>
MTOP == <<0, 0, 4>>
FTAG == <<FOREVER, MMAX>>
NTAG == <<NEVER, M0>>
TimeAdd(a, b) ==
  IF a = NEVER \/ b = NEVER THEN NEVER
  ELSE IF a = FOREVER \/ b = FOREVER THEN FOREVER
  ELSE LET s == Add(a, b) IN IF Less(s, MID) THEN NEVER ELSE LET u == Sub(s, MID) IN IF Less(u, TOP) THEN u ELSE FOREVER
TagAdd(a, b) ==
  LET t == TimeAdd(a[1], b[1])
      m == Add(IF Less(MID, b[1]) THEN M0 ELSE a[2], b[2])
  IN IF t = FOREVER THEN FTAG ELSE IF t = NEVER THEN NTAG ELSE IF ~Less(m, MTOP) THEN FTAG ELSE <<t, m>>
TagCmp(a, b) == IF Less(a[1], b[1]) THEN -1 ELSE IF Less(b[1], a[1]) THEN 1 ELSE IF Less(a[2], b[2]) THEN -1 ELSE IF Less(b[2], a[2]) THEN 1 ELSE 0
DelayTag(a, i) ==
  IF a[1] = NEVER \/ Less(i, MID) THEN a
  ELSE LET s == Sub(Add(a[1], i), MID)     \* i is not negative
       IN IF ~Less(s, FOREVER) THEN FTAG ELSE IF i = MID THEN <<a[1], Add(a[2], <<1, 0, 0>>)>> ELSE <<s, M0>>
\* The last tag at which nothing can arrive any more from a sender that has completed tag a.
DelayStrict(a, i) ==
  LET r == DelayTag(a, i) IN IF a[1] = NEVER \/ ~Less(MID, i) \/ r[1] = FOREVER THEN r ELSE <<Sub(r[1], ONE), MMAX>>
\* "1,234 s, 5 ms": clauses <<digits, unit>>; the factors of each unit.
Factors == [weeks |-> <<7, 24, 60, 60, 1000, 1000, 1000>>, d |-> <<24, 60, 60, 1000, 1000, 1000>>, h |-> <<60, 60, 1000, 1000, 1000>>,
            min |-> <<60, 1000, 1000, 1000>>, s |-> <<1000, 1000, 1000>>, ms |-> <<1000, 1000>>, us |-> <<1000>>, ns |-> <<>>]
RECURSIVE Number(_, _)
Number(a, ds) == IF ds = <<>> THEN a ELSE Number(Add(Mul(a, 10), <<Head(ds), 0, 0, 0, 0>>), Tail(ds))
RECURSIVE Total(_, _)
Total(a, cs) == IF cs = <<>> THEN a ELSE Total(Add(a, Muls(Number(Z5, Head(cs).n), Factors[Head(cs).u])), Tail(cs))

(* ------------------------------------------------------------ operations *)
Do(st, e) ==
  LET a == e.a
      r == e.r
      o == e.op
      Put(x, ok) == Res([st EXCEPT !.tq = @ \cup {x}, !.n = @ + 1], e, ok)
      at == {x \in st.tq : x[2] = a[1] /\ x[3] = a[2]}
      min == MinTq(st.tq)
      q == InQ(st, a[1])
  IN
  CASE o = "tqins" -> Put(<<a[1], a[2], a[3], 0>>, r = 0)
    [] o = "tqinstag" -> Put(<<-1, a[1], a[2], st.n>>, r = 0)
    [] o = "tqinsnm" -> IF at = {} THEN Put(<<-1, a[1], a[2], st.n>>, r = 0) ELSE Res(st, e, r = 1)
    [] o \in {"tqfind", "tqfindeq"} -> Res(st, e, IF at = {} THEN r = NONE ELSE Hit(at, r) # {})
    [] o = "tqpeek" -> Res(st, e, IF st.tq = {} THEN r = NONE ELSE Hit(min, r) # {})
    [] o = "tqpeektag" -> Res(st, e, IF st.tq = {} THEN r = FOREVER3 ELSE \E x \in min : r = Tag3(x))
    [] o = "tqpop" -> IF st.tq = {} THEN Res(st, e, r = NONE)
                      ELSE IF Hit(min, r) = {} THEN Wrong(st) ELSE [st EXCEPT !.tq = @ \ {CHOOSE x \in Hit(min, r) : TRUE}]
    [] o = "tqpoptag" -> IF st.tq = {} THEN Res(st, e, r = FOREVER3)
                         ELSE LET x == CHOOSE y \in min : TRUE IN Res([st EXCEPT !.tq = @ \ {x}], e, r = Tag3(x))
    [] o = "tqrm" -> [st EXCEPT !.tq = {x \in @ : x[1] # a[1]}]
    [] o = "tqupto" -> [st EXCEPT !.tq = {x \in @ : TLT(<<0, a[1], a[2]>>, x)}]
    [] o = "tqsize" -> Res(st, e, r = Cardinality(st.tq))
    [] o = "bqins" -> Res([st EXCEPT !.bq = @ \cup {<<a[1], a[2], a[3], a[4]>>}], e, r = 0)
    [] o = "bqpop" -> Res([st EXCEPT !.bq = {x \in @ : x[1] # a[1] \/ x[2] # r}], e, IdIn(MinBq(q), r))
    [] o = "bqpeek" -> Res(st, e, IdIn(MinBq(q), r))
    [] o = "bqrm" -> Res([st EXCEPT !.bq = {x \in @ : x[2] # a[2]}], e, r = 0)
    [] o = "bqsame" -> Res(st, e, IdIn({x \in q : x[3] = a[2]}, r))
    [] o = "bqeq" -> Res(st, e, IdIn({x \in q : x[3] = a[2] /\ x[4] = a[3]}, r))
    [] o = "bqinto" -> [st EXCEPT !.bq = {<<a[1], x[2], x[3], x[4]>> : x \in @}]
    [] o = "bqsize" -> Res(st, e, r = Cardinality(q))
    [] o = "bqvalid" -> Res(st, e, r = 1)
    [] o = "hsadd" -> IF a[1] \in {0, 1} THEN Res(st, e, r = -1)
                      ELSE Res([st EXCEPT !.hs = @ \cup {a[1]}], e, r = IF a[1] \in st.hs THEN 0 ELSE 1)
    [] o = "hsrm" -> Res([st EXCEPT !.hs = @ \ {a[1]}], e, r = IF a[1] \in st.hs THEN 1 ELSE 0)
    [] o = "hshas" -> Res(st, e, r = IF a[1] \in st.hs THEN 1 ELSE 0)
    [] o = "hsnum" -> Res(st, e, r = Cardinality(st.hs))
    [] o = "hsit" -> Res([st EXCEPT !.hs = {x \in @ : a[1] = 0 \/ x % a[1] # 0}], e, Len(r) = Cardinality(st.hs) /\ Range(r) = st.hs)
    [] o \in {"hpput", "hiput"} -> [st EXCEPT !.hm = {x \in @ : x[1] # a[1]} \cup {<<a[1], a[2]>>}]
    [] o \in {"hpget", "higet"} -> Res(st, e, <<a[1], r>> \in st.hm)
    [] o = "vpush" -> [st EXCEPT !.vec = Append(@, a[1])]
    [] o = "vall" -> [st EXCEPT !.vec = @ \o [k \in 1..a[1] |-> a[2] + k - 1]]
    [] o = "vpop" -> IF st.vec = <<>> THEN Res(st, e, r = 0)
                     ELSE Res([st EXCEPT !.vec = SubSeq(@, 1, Len(@) - 1)], e, r = st.vec[Len(st.vec)])
    [] o = "vget" -> LET v == Pad(st.vec, a[1] + 1) IN Res([st EXCEPT !.vec = v], e, r = v[a[1] + 1])
    [] o = "vset" -> [st EXCEPT !.vec = [Pad(@, a[1] + 1) EXCEPT ![a[1] + 1] = a[2]]]
    [] o = "vsize" -> Res(st, e, r = Len(st.vec))
    [] o = "mr" -> Res(st, e, r = Rows(a[1], a[2], a[3], a[4]))
    [] o = "tadd" -> Res(st, e, r = <<TimeAdd(a[1], a[2]), M0>>)
    [] o = "gadd" -> Res(st, e, r = TagAdd(<<a[1], a[2]>>, <<a[3], a[4]>>))
    [] o = "gcmp" -> Res(st, e, r = TagCmp(<<a[1], a[2]>>, <<a[3], a[4]>>))
    [] o = "gdel" -> Res(st, e, r = DelayTag(<<a[1], a[2]>>, a[3]))
    [] o = "gstr" -> Res(st, e, r = DelayStrict(<<a[1], a[2]>>, a[3]))
    [] o = "read" -> Res(st, e, e.ok = 1 /\ IF Less(MID, a[1]) THEN Total(MID, e.c) = a[1] ELSE e.c = <<[n |-> <<0>>, u |-> "ns"]>>)
    [] o = "comma" -> Res(st, e, e.ok = 1 /\ Add(MID, Number(Z5, e.c)) = a[1])
    [] o = "none" -> st
    [] o \in {"crash", "garbled"} -> Wrong(st)
    [] OTHER -> [st EXCEPT !.flags = @ \cup {"unknown"}]
=============================================================================
