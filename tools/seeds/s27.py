ID = "F08-length-without-body"
PROPERTY = "F08"
NEEDS = "two workers of a federate that send messages over physical connections to the same federate at the same time"
BREAKS = "The mutex is released between the header and the body of an untagged message, so another message may be sent in between."
EDITS = [("core/federated/federate.c", """  int result = write_to_socket_close_on_error(socket, header_length, header_buffer);
  if (result == 0) {
    // Header sent successfully. Send the body.
    result = write_to_socket_close_on_error(socket, length, message);
  }
  if (result != 0) {
    // Message did not send. Since""", """  int result = write_to_socket_close_on_error(socket, header_length, header_buffer);
  LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
  LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
  if (result == 0) {
    // Header sent successfully. Send the body.
    result = write_to_socket_close_on_error(socket, length, message);
  }
  if (result != 0) {
    // Message did not send. Since""")]
DEMO = """
F = Real(2, 10 * MS)
A, B = F.P
A.cfg["workers"] = 3
got = []
for i in range(3):
    r = A.reactor()
    t = A.timer(r, 0, MS)
    q = A.port(r, 1)
    x = A.rx(r, [("T", t)], [], [q])
    A.op(x, "set", q)
    p, _ = F.link(0, q, 1, -2)
    got.append(B.rx(B.reactor(), [("P", p)]))
for ev, raw in F.runs(range(60), sw=20):
    if fatal(raw):
        fail(fatal(raw)[0])
    for y in got:
        n = len(tags(ev[1], y))
        if n < 9 or n > 11:
            fail("received", n)
ok()
"""
