ID = "F07-absent-of-the-future"
PROPERTY = "F07"
NEEDS = "a federate in zero-delay cycles with two upstream federates, one of which is ahead, and which proceeds under a PTAG"
BREAKS = "A message or absence with a later tag from one upstream federate is taken as if all inputs were known up to there."
EDITS = [("core/federated/federate.c", "    // federate that is far ahead of other upstream federates in logical time.\n    lf_update_max_level(_fed.last_TAG, _fed.is_last_TAG_provisional);",
          "    // federate that is far ahead of other upstream federates in logical time.\n    lf_update_max_level(lf_tag_max(tag, _fed.last_TAG), _fed.is_last_TAG_provisional);".replace("lf_tag_max(tag, _fed.last_TAG)", "lf_tag_compare(tag, _fed.last_TAG) > 0 ? tag : _fed.last_TAG"))]
DEMO = """
F = Real(3, 10 * MS)
A, B, C = F.P
r = A.reactor()
t = A.timer(r, 0, MS)
q = A.port(r, 1)
x = A.rx(r, [("T", t)], [], [q])
A.op(x, "set", q)
pb, _ = F.link(0, q, 1, -1, zdc=True)
rb = B.reactor()
b1 = B.port(rb, 1)
y = B.rx(rb, [("P", pb)], [], [b1])
B.op(y, "work", 200000)
B.op(y, "set", b1)
p1, _ = F.link(1, b1, 0, -1, zdc=True)
# Federate 2 runs ahead: its messages have a delay.
rc = C.reactor()
tc = C.timer(rc, 0, MS)
c1 = C.port(rc, 1)
w = C.rx(rc, [("T", tc)], [], [c1])
C.op(w, "set", c1)
p2, _ = F.link(2, c1, 0, 3 * MS)
z1 = A.rx(A.reactor(), [("T", t), ("P", p1)])
z2 = A.rx(A.reactor(), [("P", p2)])
for ev, raw in F.runs(range(120), latlo=0, lathi=300, fast=1):
    if fatal(raw):
        fail(fatal(raw)[0])
    got = [(e[1], [i[2] for i in e[4] if i[0] == "P"]) for e in reactions(ev[0], z1)]
    if got != [((k * MS, 0), [1]) for k in range(11)]:
        fail("saw", got)
ok()
"""
