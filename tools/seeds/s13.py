ID = "F01-strict-bound-not-transitive"
PROPERTY = "F01"
NEEDS = "a zero-delay cycle with an upstream federate that itself has an upstream federate with an earlier next event"
BREAKS = "The bound for messages from outside a zero-delay cycle ignores federates further upstream, so a PTAG is granted while an earlier message can still come from outside the cycle."
EDITS = [("core/federated/RTI/rti_common.c", """    tag_t earliest = earliest_future_incoming_message_tag(upstream);
    // If the next event of the upstream node is earlier, then use that.
    if (lf_tag_compare(upstream->next_event, earliest) < 0) {""", """    tag_t earliest = upstream->completed;
    // If the next event of the upstream node is later, then use that.
    if (lf_tag_compare(upstream->next_event, earliest) > 0) {""")]
DEMO = """
# 0 -> 1 -> 2 <-> 3: messages of 1 are triggered by 0.
F = federation(4, [(0, 1, -1), (1, 2, -1), (2, 3, -1, 2, 0), (3, 2, -1, 3, 1)], [(0, t, 0) for t in range(1, 19, 2)] + [(2, t, 0) for t in range(1, 19, 2)])
for ev, raw in fedruns(F, range(300), sw=60):
    done = {}
    for e in ev:
        if e["op"] == "rd" and e["k"] == "LTC":
            done[e["f"]] = e["t"]
        if e["op"] == "wr" and e["k"] == "PTAG" and e["f"] == 3:
            # Nothing else can be sent to federate 3 at this tag by federate 2.
            g = e["t"]
            if done.get(2, [-1, 0]) < g and done.get(1, [-1, 0]) < g:
                nets = [x["t"] for x in ev[:ev.index(e)] if x["op"] == "rd" and x["k"] == "NET" and x["f"] == 1]
                if not nets or nets[-1] <= g:
                    fail("PTAG", g, "while federates upstream of the cycle are at", done, nets[-1:])
    if stuck(ev):
        fail(stuck(ev))
ok()
"""
