ID = "F05-stale-socket-after-reject"
PROPERTY = "F05"
NEEDS = "a client with the ID of a federate that has already joined, before all have joined"
BREAKS = "The socket of a client is recorded before it is checked that its ID is free, so a client with an ID in use takes over the connection of the federate that has joined."
EDITS = [("core/federated/RTI/rti_remote.c", """        if ((rti_remote->base.scheduling_nodes[fed_id])->state != NOT_CONNECTED) {""", """        federate_info_t* known = GET_FED_INFO(fed_id);
        known->socket = *socket_id;
        if ((rti_remote->base.scheduling_nodes[fed_id])->state != NOT_CONNECTED) {""")]
DEMO = """
F = federation(2, [(0, 1, 5)], [(0, 1, 0)], join=[(0, 0), (1, 4000000)], bad=[("d", 0, 500)])
for ev, raw in fedruns(F, range(60), sw=60):
    if stuck(ev):
        fail(stuck(ev))
    if not any(e["op"] == "exit" and e["a"] == 0 for e in ev):
        fail("no regular end")
ok()
"""
