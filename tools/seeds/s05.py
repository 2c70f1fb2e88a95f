ID = "R05-shutdown-at-zero-timeout"
PROPERTY = "R05"
NEEDS = "a threaded program with a timeout of zero"
BREAKS = "Shutdown reactions are not triggered when the start tag is the last tag."
EDITS = [("core/threaded/reactor_threaded.c", """#else  // NOT FEDERATED
  _lf_initialize_timers(env);

  // If the stop_tag is (0,0), also insert the shutdown
  // reactions. This can only happen if the timeout time
  // was set to 0.
  if (lf_tag_compare(env->current_tag, env->stop_tag) >= 0) {""", """#else  // NOT FEDERATED
  _lf_initialize_timers(env);

  // If the stop_tag is (0,0), also insert the shutdown
  // reactions. This can only happen if the timeout time
  // was set to 0.
  if (lf_tag_compare(env->current_tag, env->stop_tag) > 0) {""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=2, timeout=0)
r = p.reactor()
p.rx(r, [("S", 0)])
p.rx(r, [("D", 0)])
for ev in runs("np", p, range(3)):
    if fatal(ev) or tags(ev, 1) != [(0, 0)]:
        fail(fatal(ev), tags(ev, 1))
ok()
"""
