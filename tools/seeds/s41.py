ID = "F09-one-port-per-staa"
PROPERTY = "F09"
NEEDS = "two inputs with the same STAA at one federate, of which the second gets no message at a tag at which its reactions could be triggered"
BREAKS = "When the STAA has passed only the first unknown input is assumed to be absent, the other ones one STAA record later or not at all."
EDITS = [("core/federated/federate.c", """              update_last_known_status_on_input_port(env, lf_tag(env), id_of_action(input_port_action));
              lf_cond_broadcast(&lf_port_status_changed);
            }
""", """              update_last_known_status_on_input_port(env, lf_tag(env), id_of_action(input_port_action));
              lf_cond_broadcast(&lf_port_status_changed);
              wait_until_time = lf_time_add(wait_until_time, wait_time);
              break;
            }
""")]
DEMO = """
F = Real(3, 500 * MS)
A, C, B = F.P
F.F.dec = True
ps = []
for k, P in enumerate((A, C)):
    r = P.reactor()
    q = P.port(r, 1)
    x = P.rx(r, [("T", P.timer(r, 400 * MS, 0))], [], [q])
    P.op(x, "set", q)
    p, na = F.link(k, q, 2, -1)
    F.F.staa[(2, na)] = 8 * MS
    ps.append(p)
rb = B.reactor()
y = B.rx(rb, [("T", B.timer(rb, 200 * MS, 0)), ("P", ps[0]), ("P", ps[1])])
for ev, raw in F.runs(range(4), cfg="fedd"):
    if fatal(raw):
        fail(fatal(raw)[0])
    at = [r[3] for r in reactions(ev[2], y) if r[1][0] == 200 * MS]
    if len(at) != 1 or at[0] > 212 * MS:
        fail("the second input is not assumed to be absent after 8 ms, but after", [a - 200 * MS for a in at])
ok()
"""
