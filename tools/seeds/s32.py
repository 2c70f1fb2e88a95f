ID = "R13-reset-stops-at-initial"
PROPERTY = "R13"
NEEDS = "a modal reactor that is in its initial mode while an enclosing mode is entered with a reset"
BREAKS = "A reset of an enclosing mode is not passed on to a modal reactor that already is in its initial mode, whose timers then continue instead of starting over."
EDITS = [("core/modal_models/modes.c", """          state->parent_mode->state->mode_change == reset_transition) {
        // Reset to initial state.""", """          state->parent_mode->state->mode_change == reset_transition && state->current_mode != state->initial_mode) {
        // Reset to initial state.""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=60 * MS)
r = p.reactor(2)
a, b = p.mode(r), p.mode(r)
p.R[r]["init"] = a
s = p.reactor(2, pmode=a)
c, d = p.mode(s), p.mode(s)
p.R[s]["init"] = c
t = p.timer(r, 10 * MS, 0, mode=a)
x = p.rx(r, [("T", t)], mode=a)
p.op(x, "mode", b, 1)
u = p.timer(r, 10 * MS, 0, mode=b)
y = p.rx(r, [("T", u)], mode=b)
p.op(y, "mode", a, 1)
w = p.timer(s, 7 * MS, 100 * MS, mode=c)
z = p.rx(s, [("T", w)], mode=c)
for cfg in ("mod_st", "mod_np"):
    for ev in runs(cfg, p, range(2)):
        if fatal(ev) or [q[0] for q in tags(ev, z)] != [7 * MS, 27 * MS, 47 * MS]:
            fail(cfg, fatal(ev), tags(ev, z))
ok()
"""
