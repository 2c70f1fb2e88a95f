"""The RTI under random federations: byte streams of the real RTI checked against spec/TraceRTI."""
import json
import fed, run
from runtime import strategy

FLAGS = {
    "F01": {"unsafe", "unsafeptag", "aftertag", "afterptag", "regress"},
    "F02": {"stall", "stallptag", "stuck"},
    "F03": {"forward", "lost", "garbled", "unknown", "stuck", "cut"},
    "F04": {"stopreq", "stopgrant", "stopnotasked", "stopnotgranted", "unsafe"},
    "F05": {"start", "join", "address", "cut", "exit", "stuck", "unknown"},
}


def one(ctx, rid, rng, feat):
    F = fed.gen_fed(rng, **feat)
    params = dict(seed=rng.randrange(1 << 30), quiet=1, maxemit=60000, **strategy(rng))
    if rng.random() < .5:
        params.update(latlo=0, lathi=rng.choice([10, 300]))
    if rng.random() < .3:
        params.update(partial=30)
    return rid, F, (rid, params, [(ctx.so("rti"), "rti_entry", 0, 0, F.rti_args()), (ctx.so("fakes"), "fakes_main", 0, 0, F.text())])


def judge(ctx, cases):
    out = run.simulate(ctx.bin, [c[2] for c in cases], ctx.work)
    traces = []
    for rid, F, _ in cases:
        if rid not in out:
            raise run.Infra("no history for " + rid)
        ev, conns, start = fed.rti_events(out[rid], 0)
        if not ev:
            ev = [dict(op="stuck", c=0, f=0, k="nothing", t=[0, 0], d=0, x="", a=0)]
        traces.append(dict(id=rid, p=fed.record(F, conns), ev=ev))
    v, g, d = run.validate(traces, ctx.work, "TraceRTI")
    ctx.tlc_count(g, d)
    ctx.traces += len(traces)
    ctx.events += sum(len(t["ev"]) for t in traces)
    return {t["id"]: (*v[t["id"]], t["ev"]) for t in traces if v[t["id"]][0]}, traces


def check(ctx, pid, plan, size=4000):
    """plan: list of (number of federations, features)."""
    flags = FLAGS[pid]
    ctx.build("rti", "fakes")
    cases = []
    for k, (n, feat) in enumerate(plan):
        for i in range(n):
            cases.append(one(ctx, "fed-%d-%d" % (k, i), ctx.rng(k, i), feat))
    for a in range(0, len(cases), size):
        part = cases[a:a + size]
        bad, traces = judge(ctx, part)
        for t in traces[:1]:
            ctx.sample(dict(history=t["id"], events=t["ev"][:12]))
        hit = [c for c in part if c[0] in bad and bad[c[0]][0] & flags]
        if hit:
            again, _ = judge(ctx, hit[:20])
            for c in hit[:20]:
                if c[0] in again and again[c[0]][0] == bad[c[0]][0]:
                    f, ix, ev = again[c[0]]
                    lines = [json.dumps(e) for e in ev]
                    ctx.violation(c[0], "%s: %s at event %d: %s" % (c[0], ", ".join(sorted(f)), ix, lines[ix - 1]),
                                  {"run.txt": run.batch_text([c[2]]), "federation.txt": c[1].text(), "history.jsonl": "\n".join(lines) + "\n"})
            break
