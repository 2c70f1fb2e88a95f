ID = "R11-workers-not-woken"
PROPERTY = "R11"
NEEDS = "at least three workers waiting for the scheduler's semaphore while two or more are released"
BREAKS = "Releasing several permits of a semaphore wakes only one waiting thread."
EDITS = [("core/utils/lf_semaphore.c", "lf_cond_broadcast(&semaphore->cond);", "lf_cond_signal(&semaphore->cond);")]
DEMO = """
p = Prog()
p.cfg = dict(workers=4, timeout=3 * MS)
for _ in range(4):
    r = p.reactor()
    t = p.timer(r, MS, MS)
    p.op(p.rx(r, [("T", t)]), "spin", 4)
for ev in runs("np", p, range(20)):
    if fatal(ev) or not [e for e in ev if e["e"] == "ret"]:
        fail(fatal(ev)[:2])
ok()
"""
