ID = "F03-drop-leaves-rest"
PROPERTY = "F03"
NEEDS = "a message longer than two buffers to a federate that has already left, followed by other messages of the same sender"
BREAKS = "When a message to a federate that has left is dropped, only one more buffer of it is removed from the stream, so what follows is misread."
EDITS = [("core/federated/RTI/rti_remote.c", """    size_t total_bytes_read = bytes_read;
    while (total_bytes_read < total_bytes_to_read) {
      bytes_to_read = total_bytes_to_read - total_bytes_read;
      if (bytes_to_read > FED_COM_BUFFER_SIZE) {
        bytes_to_read = FED_COM_BUFFER_SIZE;
      }
      read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
                                     "RTI failed to clear message chunks.");
      total_bytes_read += bytes_to_read;
    }""", """    if (bytes_read < total_bytes_to_read) {
      bytes_to_read = total_bytes_to_read - bytes_read;
      if (bytes_to_read > FED_COM_BUFFER_SIZE) {
        bytes_to_read = FED_COM_BUFFER_SIZE;
      }
      read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
                                     "RTI failed to clear message chunks.");
    }""")]
DEMO = """
F = federation(3, [(0, 1, -1), (0, 2, -1)], [(0, t, 0) for t in range(1, 15)], big=100, plans=[(1, "r", 2)])
for ev, raw in fedruns(F, range(100), sw=60):
    if stuck(ev):
        fail(stuck(ev))
    sent = sorted(e["x"] for e in ev if e["op"] == "rd" and e["k"] == "MSG" and e["d"] == 3)
    got = sorted(e["x"] for e in ev if e["op"] == "wr" and e["k"] == "MSG" and e["f"] == 3)
    if sent != got:
        fail("messages to federate 3", len(sent), len(got))
ok()
"""
