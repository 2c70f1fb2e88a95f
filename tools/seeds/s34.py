ID = "R08-shutdown-before-startup"
PROPERTY = "R08"
NEEDS = "a mode that has been entered again with a reset, or a mode that is entered in the last tag"
BREAKS = "A reset forgets that a mode has started: its startup reactions are triggered at every reset."
EDITS = [("core/modal_models/modes.c", """            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_RESET;
""", """            state->current_mode->flags = _LF_MODE_FLAG_MASK_NEEDS_RESET;
""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=60 * MS)
r = p.reactor(2)
a, b = p.mode(r), p.mode(r)
p.R[r]["init"] = a
t = p.timer(r, 10 * MS, 0, mode=a)
x = p.rx(r, [("T", t)], mode=a)
p.op(x, "mode", b, 1)
u = p.timer(r, 20 * MS, 0, mode=b)
y = p.rx(r, [("T", u)], mode=b)
p.op(y, "mode", a, 1)
z = p.rx(r, [("S", 0)], mode=a)
for cfg in ("mod_st", "mod_np"):
    for ev in runs(cfg, p, range(2)):
        if fatal(ev) or tags(ev, z) != [(0, 0)]:
            fail(cfg, fatal(ev), tags(ev, z))
ok()
"""
