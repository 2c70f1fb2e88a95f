ID = "R10-stop-before-active"
PROPERTY = "R10"
NEEDS = "a watchdog that is stopped before its thread has noticed that it was started"
BREAKS = "Stopping a watchdog that has been started but is not yet waiting has no effect."
EDITS = [("core/threaded/watchdog.c", """  // Assumes reactor mutex is already held.
  watchdog->expiration = NEVER;

  // If lf_watchdog_stop is called very close to lf_watchdog_start, it might
  // not have had the time to wake up and start sleeping.
  if (!watchdog->active) {
    return;
  }
""", """  // Assumes reactor mutex is already held.

  // If lf_watchdog_stop is called very close to lf_watchdog_start, it might
  // not have had the time to wake up and start sleeping.
  if (!watchdog->active) {
    return;
  }
  watchdog->expiration = NEVER;
""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=10 * MS, keepalive=1)
r = p.reactor()
w = p.watchdog(r, 2 * MS)
x = p.rx(r, [("S", 0)])
p.op(x, "wdstart", w, 0)
p.op(x, "wdstop", w)
for ev in runs("np", p, range(10)):
    if fatal(ev) or [e for e in ev if e["e"] == "wdh"]:
        fail("handler ran", fatal(ev))
ok()
"""
