ID = "R09-copy-shared"
PROPERTY = "R09"
NEEDS = "a value read by two reactors, one of which requests a writable copy while it has the only counted reference"
BREAKS = "A writable copy aliases the value when the reference count is one, although several destinations read it."
EDITS = [("core/lf_token.c", "  if (port->num_destinations == 1 && token->ref_count == 1) {", "  if (token->ref_count == 1) {")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1, timeout=0)
r, s, u = p.reactor(), p.reactor(), p.reactor()
q = p.port(r, 2)
x = p.rx(r, [("S", 0)], eff=[q])
p.op(x, "set", q)
y = p.rx(s, [("P", q)])
p.op(y, "wcopy", q, -1)
p.rx(u, [("P", q)])
for ev in runs("st", p, range(2)):
    w = [e for e in ev if e["e"] == "wc"]
    if len(w) != 1 or w[0]["of"] == w[0]["v"]:
        fail(w)
ok()
"""
