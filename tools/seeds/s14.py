ID = "F02-only-changed-recursion"
PROPERTY = "F02"
NEEDS = "a chain of federates where the one in the middle has no event and the last one waits, while the NET of the first increases"
BREAKS = "When the next event of a federate changes, federates further downstream are examined again only if the one in between got a grant; otherwise they wait forever."
EDITS = [("core/federated/RTI/rti_common.c", """    notify_advance_grant_if_safe(downstream);
    notify_downstream_advance_grant_if_safe(downstream, visited);
  }""", """    tag_t last_granted = downstream->last_granted;
    notify_advance_grant_if_safe(downstream);
    if (lf_tag_compare(last_granted, downstream->last_granted) != 0) {
      notify_downstream_advance_grant_if_safe(downstream, visited);
    }
  }""")]
DEMO = """
F = federation(3, [(0, 1, 5), (1, 2, -1)], [(0, 3, 0), (0, 13, 0), (0, 19, 0), (2, 7, 0), (2, 11, 0), (2, 17, 0)], pmsg=0, stop=(30, 0))
for ev, raw in fedruns(F, range(200), sw=60):
    if stuck(ev):
        fail(stuck(ev))
    # Federate 3 waits for a tag although both others are beyond it.
    net, done, tag = {}, {}, {}
    for e in ev:
        if e["op"] == "rd" and e["k"] in ("NET", "LTC"):
            (net if e["k"] == "NET" else done)[e["f"]] = e["t"]
        if e["op"] == "wr" and e["k"] == "TAG":
            tag[e["f"]] = e["t"]
        if e["op"] == "quiet" and 3 in net and 1 in net and 2 in net:
            w = net[3]
            if done.get(3, [-1, 0]) < w and tag.get(3, [-1, 0]) < w and net[2] > w and net[1] > w and w[0] < 30:
                fail("federate 3 waits for", w, "next events", net)
ok()
"""
