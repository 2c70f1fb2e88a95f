ID = "F04-reply-time-only"
PROPERTY = "F04"
NEEDS = "a reply to a stop request that differs from the maximum so far in the microstep only"
BREAKS = "Replies to a stop request are compared by time only, so the stop tag can be a microstep that a federate has already completed."
EDITS = [("core/federated/RTI/rti_remote.c", """  if (lf_tag_compare(federate_stop_tag, rti_remote->base.max_stop_tag) > 0) {""", """  if (federate_stop_tag.time > rti_remote->base.max_stop_tag.time) {""")]
DEMO = """
F = federation(3, [(0, 2, 5)], [(0, 1, 0)] + [(1, 1, m) for m in range(1, 9)], plans=[(0, "s", 2)])
for ev, raw in fedruns(F, range(200), sw=60):
    p = [e["t"] for e in ev if e["op"] == "rd" and e["k"] in ("SREQ", "SREP")]
    g = [e["t"] for e in ev if e["op"] == "wr" and e["k"] == "SGRANT"]
    if stuck(ev):
        fail(stuck(ev))
    if g and (g[0] != max(p) or any(x != g[0] for x in g)):
        fail("proposals", p, "granted", g)
ok()
"""
