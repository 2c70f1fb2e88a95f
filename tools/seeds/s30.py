ID = "R08-request-overwritten"
PROPERTY = "R08"
NEEDS = "two modal reactors, the second of which has nothing to start or reset when the first one enters a mode"
BREAKS = "The request to trigger the startup and reset reactions of entered modes is overwritten by every modal reactor in turn, so that it is lost when a later one needs none."
EDITS = [("core/modal_models/modes.c", """          env->modes->triggered_reactions_request |=
              state->current_mode->flags &""", """          env->modes->triggered_reactions_request =
              state->current_mode->flags &""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=30 * MS)
r, s = p.reactor(2), p.reactor(2)
a, b = p.mode(r), p.mode(r)
c, d = p.mode(s), p.mode(s)
p.R[r]["init"], p.R[s]["init"] = a, c
t = p.timer(r, 10 * MS, 0, mode=a)
x = p.rx(r, [("T", t)], mode=a)
p.op(x, "mode", b, 1)
z = p.rx(r, [("Z", 0)], mode=b)
p.rx(s, [("S", 0)], mode=c)
for cfg in ("mod_st", "mod_np"):
    for ev in runs(cfg, p, range(2)):
        if fatal(ev) or tags(ev, z) != [(10 * MS, 1)]:
            fail(cfg, fatal(ev), tags(ev, z))
ok()
"""
