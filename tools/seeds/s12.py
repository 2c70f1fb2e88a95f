ID = "F01-in-transit-not-recorded"
PROPERTY = "F01"
NEEDS = "a federate whose NET crosses a message to it that is earlier than that NET but not earlier than its previous one, with a third federate downstream"
BREAKS = "Messages are recorded as in transit only if they are earlier than the known next event; a NET that the federate sent before it received such a message then makes the RTI grant too much downstream."
EDITS = [("core/federated/RTI/rti_remote.c", """  if (lf_tag_compare(fed->enclave.completed, intended_tag) < 0) {
    // Add""", """  if (lf_tag_compare(fed->enclave.completed, intended_tag) < 0 &&
      lf_tag_compare(intended_tag, fed->enclave.next_event) <= 0) {
    // Add""")]
DEMO = """
for fs in range(6):
    F = federation(3, [(0, 1, 1), (1, 2, -1)], [(0, t, 0) for t in range(1, 19)] + [(1, t, 0) for t in range(fs % 3, 19, 2 + fs % 4)], pmsg=80)
    F.evs += [(2, t, 0) for t in range(1, 19)]
    for ev, raw in fedruns(F, range(150 * fs, 150 * fs + 150), sw=60):
        if late(ev):
            fail("message after its tag has been granted", late(ev)[:3])
        if stuck(ev):
            fail(stuck(ev))
ok()
"""
