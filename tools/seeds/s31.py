ID = "R08-stale-reset-flag"
PROPERTY = "R08"
NEEDS = "a mode entered a second time with a reset, and a later transition of another modal reactor"
BREAKS = "The note that a mode needs a reset is only cleared when the mode starts for the first time, so its reset reactions are triggered again at every later transition of any reactor."
EDITS = [("core/modal_models/modes.c", """        state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_NEEDS_STARTUP;
      }

      // Clear reset flag
      state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_NEEDS_RESET;
    }""", """        state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_NEEDS_STARTUP;

        // Clear reset flag
        state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_NEEDS_RESET;
      }
    }""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=60 * MS)
r, s = p.reactor(2), p.reactor(2)
a, b = p.mode(r), p.mode(r)
c, d = p.mode(s), p.mode(s)
p.R[r]["init"], p.R[s]["init"] = a, c
t = p.timer(r, 10 * MS, 0, mode=a)
x = p.rx(r, [("T", t)], mode=a)
p.op(x, "mode", b, 1)
u = p.timer(r, 10 * MS, 0, mode=b)
y = p.rx(r, [("T", u)], mode=b)
p.op(y, "mode", a, 1)
z = p.rx(r, [("Z", 0)], mode=a)
w = p.timer(s, 25 * MS, 0, mode=c)
v = p.rx(s, [("T", w)], mode=c)
p.op(v, "mode", d, 2)
for cfg in ("mod_st", "mod_np"):
    for ev in runs(cfg, p, range(2)):
        if fatal(ev) or [q[0] for q in tags(ev, z)] != [20 * MS, 40 * MS, 60 * MS][:len(tags(ev, z))] or len(tags(ev, z)) < 2:
            fail(cfg, fatal(ev), tags(ev, z))
ok()
"""
