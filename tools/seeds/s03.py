ID = "R03-wakes-too-early"
PROPERTY = "R03"
NEEDS = "GEDF scheduler, at least two workers, and a reaction that is still running when a worker finds only reactions of higher levels"
BREAKS = "A worker that waits for the reaction queue is no longer counted as busy when it resumes, so the level advances while a reaction is running."
EDITS = [("core/threaded/scheduler_GEDF_NP.c", """        if (scheduler->number_of_idle_workers == scheduler->number_of_workers - 1) {
          // All other workers are idle.  Advance to the next level.""",
"""        if (scheduler->number_of_idle_workers >= scheduler->number_of_workers / 2) {
          // All other workers are idle.  Advance to the next level.""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=3, timeout=3 * MS)
rs = [p.reactor() for _ in range(4)]
t = [p.timer(r, 0, MS) for r in rs[:3]]
qs = [p.port(r) for r in rs[:3]]
for i in range(3):
    x = p.rx(rs[i], [("T", t[i])], eff=[qs[i]])
    p.op(x, "spin", 3 + 6 * i)
    p.op(x, "set", qs[i])
p.rx(rs[3], [("P", q) for q in qs])
for ev in runs("gedf", p, range(100)):
    if fatal(ev):
        fail(fatal(ev)[:2])
    run = set()
    for e in ev:
        if e["e"] == "r":
            if e["x"] == 3 and run:
                fail("downstream reaction starts while", run, "run")
            run.add(e["x"])
        elif e["e"] == "x":
            run.discard(e["x"])
    if tags(ev, 3) != [(k * MS, 0) for k in range(4)]:
        fail(tags(ev, 3))
ok()
"""
