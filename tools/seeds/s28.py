ID = "F08-reply-half-read"
PROPERTY = "F08"
NEEDS = "a physical connection to a federate that joins later than the one that looks for it"
BREAKS = "While the address of the other federate is not known yet, the second half of the reply is not read before the next query."
EDITS = [("core/federated/federate.c", """    read_from_socket_fail_on_error(&_fed.socket_TCP_RTI, sizeof(host_ip_addr), (unsigned char*)&host_ip_addr, NULL,
                                   "Failed to read the IP address for federate %d from RTI.", remote_federate_id);

""", """    if (port != -1) {
      read_from_socket_fail_on_error(&_fed.socket_TCP_RTI, sizeof(host_ip_addr), (unsigned char*)&host_ip_addr, NULL,
                                     "Failed to read the IP address for federate %d from RTI.", remote_federate_id);
    }

""")]
DEMO = """
F = Real(2, 10 * MS)
A, B = F.P
r = A.reactor()
t = A.timer(r, 0, MS)
q = A.port(r, 1)
x = A.rx(r, [("T", t)], [], [q])
A.op(x, "set", q)
p, _ = F.link(0, q, 1, -2)
y = B.rx(B.reactor(), [("P", p)])
for ev, raw in F.runs(range(60), sw=20):
    if fatal(raw):
        fail(fatal(raw)[0])
    n = len(tags(ev[1], y))
    if n < 9 or n > 11:
        fail("received", n)
ok()
"""
