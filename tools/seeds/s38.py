ID = "C01-clock-jumps-back"
PROPERTY = "C01"
NEEDS = "two readings of a fast clock less than one adjustment apart, around the adjustment"
BREAKS = "A clock that is moved back goes backwards for its program."
EDITS = [("core/clock.c", """    if (*now < last_read_local) {
""", """    if (*now < last_read_local && *now < last_read_local - MSEC(10)) {
""")]
DEMO = """
F = Real(1, 100 * MS)
p = F.P[0]
r = p.reactor()
t = p.timer(r, 0, 500000)
x = p.rx(r, [("T", t)])
for _ in range(20):
    p.op(x, "clk")
    p.op(x, "work", 10000)
for ev, raw in F.runs(range(6), cfg="fedcs", sync="on period 1000000 exchanges-per-interval 10", clocks=[(3 * MS - 500000000, 500)], latlo=1000, lathi=1000):
    last = 0
    c = [e["p"] for e in raw if e["e"] == "clk"]
    if not c:
        fail("no readings", fatal(raw))
    for v in c:
        if v < last:
            fail("backwards", last - v)
        last = v
ok()
"""
