ID = "F09-late-by-microsteps"
PROPERTY = "F09"
NEEDS = "a message that is late by microsteps only: it arrives when its input has been assumed absent at its tag, and before time advances"
BREAKS = "A message that is handled a microstep late is taken for one in time: the handler of late messages is not invoked."
EDITS = [("core/reactor_common.c", """          if (lf_tag_compare(event->intended_tag, env->current_tag) < 0) {
""", """          if (event->intended_tag.time < env->current_tag.time) {
""")]
DEMO = """
F = Real(2, 500 * MS)
A, B = F.P
F.F.dec = True
r = A.reactor()
q = A.port(r, 1)
x = A.rx(r, [("T", A.timer(r, 300 * MS, 20 * MS))], [], [q])
A.op(x, "set", q)
p, na = F.link(0, q, 1, -1)
F.F.staa[(1, na)] = MS
rb = B.reactor()
B.rx(rb, [("T", B.timer(rb, 300 * MS, 20 * MS)), ("P", p)])
y = B.rx(rb, [("P", p)])
B.X[y]["stp"] = 1
for ev, raw in F.runs(range(4), cfg="fedd", latlo=5000000, lathi=5000000):
    if fatal(raw):
        fail(fatal(raw)[0])
    seen = [(r[1], r[2]) for r in reactions(ev[1], y) if r[1][1] > 0]
    if len(seen) < 8 or not all(h for _, h in seen):
        fail("late, but not for its handler", seen)
ok()
"""
