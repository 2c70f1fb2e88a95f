ID = "F07-no-dummy-at-microstep"
PROPERTY = "F07"
NEEDS = "a zero-delay cycle in which only one federate has an event at a later microstep of the time at which the other one is"
BREAKS = "A federate that is granted a PTAG for a later microstep of its current time does not go there and never tells that its outputs are absent."
EDITS = [("core/federated/federate.c", "  if (PTAG.time != FOREVER) {", "  if (PTAG.time != FOREVER && PTAG.time > env->current_tag.time) {")]
DEMO = """
F = Real(2, 5 * MS)
A, B = F.P
r = A.reactor()
t = A.timer(r, 0, MS)
a = A.action(r, min=0)
x = A.rx(r, [("T", t)])
A.op(x, "sched", a, 0)
q = A.port(r, 1)
x2 = A.rx(r, [("A", a)], [], [q])
A.op(x2, "set", q, mod=2)
p, _ = F.link(0, q, 1, -1, zdc=True)
rb = B.reactor()
b = B.port(rb, 1)
y = B.rx(rb, [("T", B.timer(rb, 0, MS)), ("P", p)], [], [b])
B.op(y, "set", b, mod=2)
p, _ = F.link(1, b, 0, -1, zdc=True)
z = A.rx(A.reactor(), [("A", a)], [("P", p)])
for ev, raw in F.runs(range(40), latlo=0, lathi=200):
    if fatal(raw):
        fail(fatal(raw)[0])
    if tags(ev[0], z) != [(k * MS, 1) for k in range(5)]:
        fail("executed at", tags(ev[0], z))
ok()
"""
