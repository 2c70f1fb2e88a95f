ID = "F07-first-unknown-port"
PROPERTY = "F07"
NEEDS = "a federate in zero-delay cycles with two network inputs, the one with the lower level being the later in the table"
BREAKS = "Reactions may be executed before the status of all network inputs with a lower level is known."
EDITS = [("core/federated/federate.c", """          LF_MIN(max_level_allowed_to_advance, ((int)LF_LEVEL(input_port_action->trigger->reactions[0]->index)));
""", """          LF_MIN(max_level_allowed_to_advance, ((int)LF_LEVEL(input_port_action->trigger->reactions[0]->index)));
      // Blocked from here on.
      break;
""")]
DEMO = """
# 0 <-> 1: federate 1 answers twice, and the second answer depends on the reaction of federate 0 to the first.
F = Real(2, 10 * MS)
A, B = F.P
r = A.reactor()
t = A.timer(r, 0, MS)
q = A.port(r, 1)
x = A.rx(r, [("T", t)], [], [q])
A.op(x, "set", q)
late, _ = None, None
p, _ = F.link(0, q, 1, -1, zdc=True)
rb = B.reactor()
b1 = B.port(rb, 1)
y = B.rx(rb, [("P", p)], [], [b1])
B.op(y, "set", b1)
# A chain that raises the level of the other answer.
b2 = B.port(rb, 1)
y2 = B.rx(rb, [("P", p)], [], [b2])
B.op(y2, "work", 100000)
for k in range(4):
    y2 = B.rx(rb, [("P", p)], [], [b2] if k == 3 else [])
    B.op(y2, "work", 100000) if k < 3 else B.op(y2, "set", b2)
pl, _ = F.link(1, b2, 0, -1, zdc=True)
pe, _ = F.link(1, b1, 0, -1, zdc=True)
rl, re = A.reactor(), A.reactor()
ze = A.rx(re, [("T", A.timer(re, 0, MS)), ("P", pe)])
zl = A.rx(rl, [("T", A.timer(rl, 0, MS)), ("P", pl)])
for ev, raw in F.runs(range(40), latlo=0, lathi=200):
    if fatal(raw):
        fail(fatal(raw)[0])
    for z in (ze, zl):
        got = [(e[1], [i[2] for i in e[4] if i[0] == "P"]) for e in reactions(ev[0], z)]
        if got != [((k * MS, 0), [1]) for k in range(11)]:
            fail("reaction", z, "saw", got)
ok()
"""
