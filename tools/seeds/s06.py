ID = "R06-firing-at-timeout"
PROPERTY = "R06"
NEEDS = "a timer whose first firing is exactly at the timeout"
BREAKS = "A timer that first fires at the last tag is not scheduled."
EDITS = [("core/reactor_common.c", """  if (!lf_is_tag_after_stop_tag(env, next_tag)) {
    event_t* e = lf_get_new_event(env);
    e->trigger = timer;
    e->base.tag = next_tag;""", """  if (lf_tag_compare(next_tag, env->stop_tag) < 0) {
    event_t* e = lf_get_new_event(env);
    e->trigger = timer;
    e->base.tag = next_tag;""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=4 * MS)
r = p.reactor()
t, u = p.timer(r, 4 * MS, MS), p.timer(r, 0, 4 * MS)
p.rx(r, [("T", t)])
p.rx(r, [("T", u)])
for cfg in ("st", "np"):
    for ev in runs(cfg, p, range(2)):
        if tags(ev, 0) != [(4 * MS, 0)] or tags(ev, 1) != [(0, 0), (4 * MS, 0)]:
            fail(cfg, tags(ev, 0), tags(ev, 1))
ok()
"""
