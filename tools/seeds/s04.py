ID = "R04-record-not-sorted"
PROPERTY = "R04"
NEEDS = "a sparse multiport on which exactly two channels are set, the higher one first"
BREAKS = "The record of present channels is sorted only if it has more than two entries."
EDITS = [("core/port.c", "      if (port[0]->sparse_record->size > 1) {", "      if (port[0]->sparse_record->size > 2) {")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=0)
r, s = p.reactor(), p.reactor()
p.G[0] = 4
qs = [p.port(r, 1, 0, c) for c in range(4)]
x = p.rx(r, [("S", 0)], eff=qs)
p.op(x, "set", qs[3])
p.op(x, "set", qs[1])
y = p.rx(s, [("P", q) for q in qs])
p.op(y, "miter", 0)
for cfg in ("st", "np"):
    for ev in runs(cfg, p, range(2)):
        m = [e["ch"] for e in ev if e["e"] == "mit"]
        if m != [[1, 3]]:
            fail(cfg, m)
ok()
"""
