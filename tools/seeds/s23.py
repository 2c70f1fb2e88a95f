ID = "F06-barrier-after-reply"
PROPERTY = "F06"
NEEDS = "a federate that advances its tag between sending the reply to a stop request and blocking further advances"
BREAKS = "The federate promises to stop at a tag and can still execute that tag and later ones before the stop is granted."
EDITS = [("core/federated/federate.c", """    // Set a barrier to prevent the enclave from advancing past the so-far tag to stop.
    _lf_increment_tag_barrier_locked(&env[i], tag_to_stop);

    LF_MUTEX_UNLOCK(&env[i].mutex);
  }
""", """    LF_MUTEX_UNLOCK(&env[i].mutex);
  }
"""), ("core/federated/federate.c", """                                "Failed to send the answer to MSG_TYPE_STOP_REQUEST to RTI.");
  LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
""", """                                "Failed to send the answer to MSG_TYPE_STOP_REQUEST to RTI.");
  LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
  for (int i = 0; i < num_environments; i++) {
    // Set a barrier to prevent the enclave from advancing past the tag to stop.
    LF_MUTEX_LOCK(&env[i].mutex);
    _lf_increment_tag_barrier_locked(&env[i], tag_to_stop);
    LF_MUTEX_UNLOCK(&env[i].mutex);
  }
""")]
DEMO = """
F = Real(2, 30 * MS)
A, B = F.P
r = A.reactor()
t = A.timer(r, 0, 10 * MS)
x = A.rx(r, [("T", t)])
A.op(x, "stop", lo=1, hi=2)
r = B.reactor()
t = B.timer(r, 10 * MS, 0)
a = B.action(r, min=0)
y = B.rx(r, [("T", t), ("A", a)])
B.op(y, "sched", a, 0, hi=100)
for ev, raw in F.runs(range(300), sw=60, latlo=0, lathi=0):
    prop, granted = None, False
    for e in F.protocol(1, raw):
        if e["op"] == "wr" and e["k"] in ("SREP", "SREQ"):
            prop = tuple(e["t"])
        if e["op"] == "rd" and e["k"] == "SGRANT":
            granted = True
        if e["op"] == "B" and prop and not granted and tuple(e["t"]) >= prop:
            fail("proposed", prop, "but executes", e["t"], "before the stop is granted")
    if fatal(raw):
        fail(fatal(raw)[0])
ok()
"""
