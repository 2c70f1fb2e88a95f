ID = "F05-start-before-maximum"
PROPERTY = "F05"
NEEDS = "the last federate to propose a start time proposes the greatest one, and another one wakes up before it has been recorded"
BREAKS = "The maximum start time is updated after the other federates have been woken up and without the mutex, so they may receive an earlier start time."
EDITS = [("core/federated/RTI/rti_remote.c", """  LF_MUTEX_LOCK(&rti_mutex);
  rti_remote->num_feds_proposed_start++;
  if (timestamp > rti_remote->max_start_time) {
    rti_remote->max_start_time = timestamp;
  }
""", """  LF_MUTEX_LOCK(&rti_mutex);
  rti_remote->num_feds_proposed_start++;
"""), ("core/federated/RTI/rti_remote.c", """      lf_cond_wait(&received_start_times);
    }
  }

  LF_MUTEX_UNLOCK(&rti_mutex);
""", """      lf_cond_wait(&received_start_times);
    }
  }

  if (timestamp > rti_remote->max_start_time) {
    rti_remote->max_start_time = timestamp;
  }
  LF_MUTEX_UNLOCK(&rti_mutex);
""")]
DEMO = """
F = federation(3, [(0, 1, 5), (1, 2, 5)], [(0, 1, 0)], join=[(0, 0), (1, 900), (2, 1800)], slow=60)
for ev, raw in fedruns(F, range(200), sw=60):
    p = [e["t"] for e in ev if e["op"] == "rd" and e["k"] == "TIME"]
    g = [e["t"] for e in ev if e["op"] == "wr" and e["k"] == "TIME"]
    if stuck(ev):
        fail(stuck(ev))
    m = max(p)
    if any(x != [m[0] + 1, m[1]] for x in g):
        fail("proposed", p, "start", g)
ok()
"""
