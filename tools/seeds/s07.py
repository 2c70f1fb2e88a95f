ID = "R07-deadline-of-upstream"
PROPERTY = "R07"
NEEDS = "a reaction with a deadline whose only enabling reaction triggers it directly and takes longer than the deadline"
BREAKS = "Before a downstream reaction is executed directly, physical time is read before its upstream reaction has finished... the deadline of zero aside, lateness is judged with the upstream reaction's deadline."
EDITS = [("core/reactor_common.c", """          physical_time > env->current_tag.time + downstream_to_execute_now->deadline) {""",
          """          physical_time > env->current_tag.time + LF_MAX(reaction->deadline, downstream_to_execute_now->deadline)) {""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=2, timeout=20 * MS)
r, s = p.reactor(), p.reactor()
t = p.timer(r, 0, 10 * MS)
q = p.port(r)
x = p.rx(r, [("T", t)], eff=[q], dl=8 * MS)
p.op(x, "work", 4 * MS)
p.op(x, "set", q)
p.rx(s, [("P", q)], dl=2 * MS)
for cfg in ("st", "np"):
    for ev in runs(cfg, p, range(3)):
        h = [x[2] for x in reactions(ev, 1)]
        if h != [1, 1, 1]:
            fail(cfg, "handler executed:", h)
ok()
"""
