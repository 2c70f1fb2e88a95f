ID = "F06-stop-proposal-at-current"
PROPERTY = "F06"
NEEDS = "a stop request whose tag is exactly the tag at which another federate is when it is asked"
BREAKS = "The federate accepts to stop at the tag that it is already executing, so it stops at the next microstep, after the agreed stop tag."
EDITS = [("core/federated/federate.c", "if (lf_tag_compare(tag_to_stop, env[i].current_tag) <= 0) {\n      // Can't", "if (lf_tag_compare(tag_to_stop, env[i].current_tag) < 0) {\n      // Can't")]
DEMO = """
# Federate 0 requests a stop at (10 ms, 0), so for (10 ms, 1); federate 1 goes through microsteps there.
F = Real(2, 30 * MS)
A, B = F.P
r = A.reactor()
t = A.timer(r, 0, 10 * MS)
x = A.rx(r, [("T", t)])
A.op(x, "work", 15000)
A.op(x, "stop", lo=1, hi=2)
r = B.reactor()
t = B.timer(r, 10 * MS, 0)
a = B.action(r, min=0)
y = B.rx(r, [("T", t), ("A", a)])
B.op(y, "work", 10000)
B.op(y, "sched", a, 0, hi=60)
z = B.rx(r, [("D", 0)])
for p in (A, B):
    p.cfg["timeout"] = 30 * MS
x2 = A.rx(0, [("D", 0)])
for ev, raw in F.runs(range(150), latlo=0, lathi=5):
    s = [[e[1] for e in reactions(ev[0], x2)], [e[1] for e in reactions(ev[1], z)]]
    for f in (0, 1):
        p = [e for e in F.protocol(f, raw) if e["k"] == "SGRANT"]
        g = [tuple(e["t"]) for e in p]
        if len(g) != 1 or s[f] != g:
            fail("federate", f, "stop granted at", g, "shutdown at", s[f])
ok()
"""
