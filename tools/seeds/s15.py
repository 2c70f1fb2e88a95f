ID = "F02-resign-not-propagated"
PROPERTY = "F02"
NEEDS = "a federate that resigns while a federate two hops downstream waits for it"
BREAKS = "When a federate resigns only its immediate downstream federates are examined again."
EDITS = [("core/federated/RTI/rti_remote.c", """  while (read(my_fed->socket, buffer, 10) > 0)
    ;

  // We can now safely close the socket.
  close(my_fed->socket); //  from unistd.h

  // A federate that has left will not reply to a pending stop request.
  if (rti_remote->stop_in_progress) {
    mark_federate_requesting_stop(my_fed);
  }

  // Check downstream federates to see whether they should now be granted a TAG.
  // To handle cycles, need to create a boolean array to keep
  // track of which upstream federates have been visited.
  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
  free(visited);
""", """  while (read(my_fed->socket, buffer, 10) > 0)
    ;

  // We can now safely close the socket.
  close(my_fed->socket); //  from unistd.h

  // A federate that has left will not reply to a pending stop request.
  if (rti_remote->stop_in_progress) {
    mark_federate_requesting_stop(my_fed);
  }

  // Check downstream federates to see whether they should now be granted a TAG.
  for (int i = 0; i < my_fed->enclave.num_downstream; i++) {
    notify_advance_grant_if_safe(rti_remote->base.scheduling_nodes[my_fed->enclave.downstream[i]]);
  }
""")]
DEMO = """
F = federation(3, [(0, 1, 5), (1, 2, -1)], [(0, 3, 0), (2, 7, 0), (2, 12, 0), (2, 15, 0), (1, 18, 0)], pmsg=0, plans=[(0, "r", 1)], stop=(30, 0))
for ev, raw in fedruns(F, range(300), sw=60):
    if stuck(ev):
        fail(stuck(ev))
    net, done, tag, gone = {}, {}, {}, 0
    for e in ev:
        if e["op"] == "rd" and e["k"] in ("NET", "LTC"):
            (net if e["k"] == "NET" else done)[e["f"]] = e["t"]
        if e["op"] == "wr" and e["k"] == "TAG":
            tag[e["f"]] = e["t"]
        if e["op"] == "rd" and e["k"] == "RESIGN" and e["f"] == 1:
            gone = 1
        if e["op"] == "quiet" and gone and 3 in net and 2 in net:
            w = net[3]
            if done.get(3, [-1, 0]) < w and tag.get(3, [-1, 0]) < w and net[2] > w and w[0] < 30:
                fail("federate 3 waits for", w, "next events", net)
ok()
"""
