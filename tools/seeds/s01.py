ID = "R01-stale-next-tag"
PROPERTY = "R01"
NEEDS = "an asynchronous physical action that is scheduled while the worker that advances the tag wakes up from its sleep"
BREAKS = "The event queue is not examined again after the wait for physical time, so an event that was inserted meanwhile is jumped over."
EDITS = [("core/threaded/reactor_threaded.c", """  // A wait occurs even if wait_until() returns true, which means that the
  // tag on the head of the event queue may have changed.
  next_tag = get_next_event_tag(env);

  // If this (possibly new)""", """  // If this (possibly new)""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=20 * MS)
r = p.reactor()
t = p.timer(r, 0, 2 * MS)
a = p.action(r, phy=1)
x0 = p.rx(r, [("S", 0)])
p.op(x0, "async", 0)
p.rx(r, [("T", t)])
p.rx(r, [("A", a)])
for k in range(1, 10):
    p.ASY.append((0, 2 * MS * k - 1, 0, a, 0))
for ev in runs("np", p, range(300), sw=60, jitter=3):
    if fatal(ev):
        fail(fatal(ev)[:2])
    tg = [x[1] for x in reactions(ev)]
    if tg != sorted(tg):
        fail("tags go backwards", tg)
    if len(tags(ev, 1)) != 11:
        fail("timer", tags(ev, 1))
ok()
"""
