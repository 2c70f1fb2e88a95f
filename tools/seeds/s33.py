ID = "R13-last-event-not-suspended"
PROPERTY = "R13"
NEEDS = "an event of the mode that is left in the last place of the event queue"
BREAKS = "The search for events of inactive modes stops before the last element of the event queue, so that this event is not suspended."
EDITS = [("core/modal_models/modes.c", "        for (size_t i = 0; i < q_size; i++) {\n          event_t* event = (event_t*)env->event_q->d[i + 1];",
          "        for (size_t i = 1; i < q_size; i++) {\n          event_t* event = (event_t*)env->event_q->d[i];")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=60 * MS)
r = p.reactor(2)
a, b = p.mode(r), p.mode(r)
p.R[r]["init"] = a
t = p.timer(r, 10 * MS, 0, mode=a)
x = p.rx(r, [("T", t)], mode=a)
p.op(x, "mode", b, 1)
u = p.timer(r, 2 * MS, 0, mode=b)
y = p.rx(r, [("T", u)], mode=b)
p.op(y, "mode", a, 2)
w = p.timer(r, 15 * MS, 0, mode=a)
z = p.rx(r, [("T", w)], mode=a)
for cfg in ("mod_st", "mod_np"):
    for ev in runs(cfg, p, range(2)):
        if fatal(ev) or [q[0] for q in tags(ev, z)] != [17 * MS]:
            fail(cfg, fatal(ev), tags(ev, z))
ok()
"""
