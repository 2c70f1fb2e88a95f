ID = "C01-lost-answer-ends-sync"
PROPERTY = "C01"
NEEDS = "a datagram of the clock synchronization that is lost"
BREAKS = "After a message T4 has been lost the federate waits for it for ever and synchronizes its clock no more."
EDITS = [("core/federated/clock-sync.c", """      // Ignore further clock sync messages until we get a T1.
      waiting_for_T1 = true;
""", """      // Ignore further clock sync messages until we get a T1.
      waiting_for_T1 = false;
""")]
DEMO = """
F = Real(1, 6000 * MS)
p = F.P[0]
r = p.reactor()
t = p.timer(r, 0, 500 * MS)
x = p.rx(r, [("T", t)])
p.op(x, "clk")
for ev, raw in F.runs(range(3), cfg="fedcs", sync="on period 1000000 exchanges-per-interval 10", clocks=[(1000, 0)], latlo=1000, lathi=1000, ulatlo=1000, ulathi=1000, loss=5):
    at = [e["now"] for e in raw if e["e"] == "uw" and e["d"].startswith("14")]
    if not at or at[-1] < raw[-1]["now"] - 2500 * MS:
        fail("no more exchanges", len(at), fatal(raw))
ok()
"""
