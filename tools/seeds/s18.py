ID = "F04-second-request-ignored"
PROPERTY = "F04"
NEEDS = "two federates that request a stop at the same time, the one handled later with a later tag"
BREAKS = "A stop request that arrives while another is being handled does not contribute to the maximum stop tag, so a federate is told to stop at a tag it may have passed."
EDITS = [("core/federated/RTI/rti_remote.c", """  if (lf_tag_compare(proposed_stop_tag, rti_remote->base.max_stop_tag) > 0) {
    rti_remote->base.max_stop_tag = proposed_stop_tag;
  }

  // If all federates""", """  if (!rti_remote->stop_in_progress && lf_tag_compare(proposed_stop_tag, rti_remote->base.max_stop_tag) > 0) {
    rti_remote->base.max_stop_tag = proposed_stop_tag;
  }

  // If all federates""")]
DEMO = """
F = federation(3, [(0, 2, 5)], [(0, t, 0) for t in range(1, 9)] + [(1, t, 0) for t in range(1, 15)], plans=[(0, "s", 2), (1, "s", 5)])
for ev, raw in fedruns(F, range(200), sw=60, latlo=0, lathi=300):
    p = [e["t"] for e in ev if e["op"] == "rd" and e["k"] in ("SREQ", "SREP")]
    g = [e["t"] for e in ev if e["op"] == "wr" and e["k"] == "SGRANT"]
    if stuck(ev):
        fail(stuck(ev))
    if g and (g[0] != max(p) or any(x != g[0] for x in g)):
        fail("proposals", p, "granted", g)
ok()
"""
