ID = "F09-staa-without-sta"
PROPERTY = "F09"
NEEDS = "a federate with an STA and an input with an STAA, and a message that takes longer than the greater of the two and less than both together"
BREAKS = "An input is assumed to be absent when its STAA has passed since the tag, instead of the STA and the STAA: the message that arrives in time is late."
EDITS = [("core/federated/federate.c", "interval_t wait_time = lf_time_add(staa_elem->STAA, lf_fed_STA_offset);", """interval_t wait_time = staa_elem->STAA;
      if (wait_time < lf_fed_STA_offset) {
        wait_time = lf_fed_STA_offset;
      }""")]
DEMO = """
F = Real(2, 500 * MS)
A, B = F.P
F.F.dec = True
r = A.reactor()
q = A.port(r, 1)
x = A.rx(r, [("T", A.timer(r, 300 * MS, 20 * MS))], [], [q])
A.op(x, "set", q)
p, na = F.link(0, q, 1, -1)
rb = B.reactor()
y = B.rx(rb, [("T", B.timer(rb, 300 * MS, 10 * MS)), ("P", p)])
F.F.sta[1] = 6 * MS
F.F.staa[(1, na)] = 6 * MS
for ev, raw in F.runs(range(4), cfg="fedd", latlo=9000000, lathi=9000000):
    if fatal(raw):
        fail(fatal(raw)[0])
    seen = [(t[0] // MS, t[1]) for t in tags(ev[1], y)]
    if len(seen) < 20 or any(m for _, m in seen):
        fail("late", seen)
ok()
"""
