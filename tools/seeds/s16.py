ID = "F03-mutex-between-chunks"
PROPERTY = "F03"
NEEDS = "a message longer than the RTI's buffer that arrives in pieces while another federate's message or a grant for the same destination is sent"
BREAKS = "The mutex is released while the rest of a long message is read, so that other messages get into the middle of it."
EDITS = [("core/federated/RTI/rti_remote.c", """    read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
                                   "RTI failed to read message chunks.");
    total_bytes_read += bytes_to_read;
""", """    // Do not block other federates while waiting for the sender.
    LF_MUTEX_UNLOCK(&rti_mutex);
    read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
                                   "RTI failed to read message chunks.");
    LF_MUTEX_LOCK(&rti_mutex);
    total_bytes_read += bytes_to_read;
""")]
DEMO = """
F = federation(3, [(0, 2, -1), (1, 2, -1)], [(0, t, 0) for t in range(1, 15)] + [(1, t, 0) for t in range(1, 15)], big=100)
for ev, raw in fedruns(F, range(150), sw=60, partial=30):
    sent = [(e["d"], e["x"]) for e in ev if e["op"] == "rd" and e["k"] == "MSG"]
    got = [(e["f"], e["x"]) for e in ev if e["op"] == "wr" and e["k"] == "MSG"]
    if stuck(ev):
        fail(stuck(ev))
    if sorted(sent) != sorted(got):
        fail("messages read and written differ", len(sent), len(got))
ok()
"""
