"""Federations of real federates and the real RTI: what every federate executes (spec/TraceRuntime), what it exchanges
with the RTI (spec/TraceFed), and what the RTI does with it (spec/TraceRTI)."""
import json
import fed, fedprog, run
from runtime import strategy

ANY = None
FLAGS = {
    "F06": dict(TraceFed=ANY, TraceRTI=ANY),
    "F07": dict(TraceRuntime=ANY),
    "F08": dict(TraceRuntime=ANY),
    "F09": dict(TraceRuntime=ANY),
}
COPIES = 4


class Case:
    def __init__(s, ctx, rid, cfg, rng, feat):
        s.rid = rid
        feat = dict(feat)
        jit = feat.pop("jitter", 0.0)
        s.F = F = fedprog.gen_real(rng, **feat)
        params = dict(seed=rng.randrange(1 << 30), quiet=1, maxemit=60000, **strategy(rng))
        if rng.random() < (.8 if F.dec else .5):
            params.update(latlo=0, lathi=rng.choice([10, 300000, 1500000, 1500000] if F.dec else [10, 300]))
        if rng.random() < .3:
            params.update(partial=30)
        s.lax = rng.random() < jit
        if s.lax:
            params.update(jitter=rng.choice([1, 3, 10]))
        s.run = (rid, params, fedprog.nodes(F, ctx.so("rti"), [ctx.so("%s_%d" % (cfg, k)) for k in range(COPIES)]))

    def traces(s, raw):
        """{module: [trace]} and what went wrong otherwise."""
        F = s.F
        hs = fedprog.histories(F, raw)
        fatal = sorted(set(x for h in hs for x in h[1]))
        if fatal:
            return {}, fatal
        out = dict(TraceRuntime=[], TraceFed=[], TraceRTI=[])
        for f, (ev, _) in enumerate(hs):
            rid = "%s.%d" % (s.rid, f)
            out["TraceRuntime"].append(dict(id=rid, p=dict(fedprog.record(F, f), lax=int(s.lax)), ev=ev))
            out["TraceFed"].append(dict(id=rid, p=fedprog.protocol_record(F, f), ev=fedprog.protocol(F, f, raw)))
        ev, conns, start = fed.rti_events(raw, 0, True)
        out["TraceRTI"].append(dict(id=s.rid + ".rti", p=dict(n=F.n, fid=F.fid, conns=max(1, conns), lk=[dict(f=a + 1, t=b + 1, d=d) for a, b, d in F.fed_links()]), ev=ev))
        return out, []


def judge(ctx, cases, modules):
    """{case id: [(history, flags, index, events)]} of the cases with something wrong."""
    raw = run.simulate(ctx.bin, [c.run for c in cases], ctx.work)
    bad, T = {}, {m: [] for m in modules}
    for c in cases:
        if c.rid not in raw:
            raise run.Infra("no history for " + c.rid)
        t, fatal = c.traces(raw[c.rid])
        if fatal:
            bad[c.rid] = [(c.rid, {"fatal"}, ",".join(fatal), raw[c.rid][-200:])]
        for m in modules:
            T[m] += t.get(m, [])
    for m in modules:
        v, g, d = run.validate(T[m], ctx.work, m)
        ctx.tlc_count(g, d)
        ctx.traces += len(T[m])
        ctx.events += sum(len(t["ev"]) for t in T[m])
        for t in T[m]:
            f, ix = v[t["id"]]
            if ctx.pid == "F08":
                f = f - {"stoplost"}  # no matter of physical connections: F07
            if f and (FLAGS[ctx.pid][m] is ANY or f & FLAGS[ctx.pid][m]):
                bad.setdefault(t["id"].rsplit(".", 1)[0], []).append((t["id"], f, ix, t["ev"]))
        for t in T[m][:1]:
            ctx.sample(dict(history=t["id"], events=t["ev"][:12]))
    return bad


def check(ctx, pid, plan, size=1500):
    """plan: list of (config, number of federations, features)."""
    modules = list(FLAGS[pid])
    for cfg in sorted({c for c, _, _ in plan}):
        ctx.build("rti", cfg, copies={cfg: COPIES})
    cases = []
    for k, (cfg, n, feat) in enumerate(plan):
        for i in range(n):
            cases.append(Case(ctx, "%s-%d-%d" % (cfg, k, i), cfg, ctx.rng(k, i), feat))
    for a in range(0, len(cases), size):
        part = cases[a:a + size]
        bad = judge(ctx, part, modules)
        kn = {c: b for c, b in bad.items() if all(ctx.is_known(",".join(sorted(f))) for _, f, _, _ in b)}
        ctx.extra["known_findings_met"] = ctx.extra.get("known_findings_met", 0) + len(kn)
        hit = [c for c in part if c.rid in bad and c.rid not in kn][:20]
        if hit:
            again = judge(ctx, hit, modules)
            for c in hit:
                for tid, f, ix, ev in again.get(c.rid, []):
                    if any(o[0] == tid and o[1] == f for o in bad[c.rid]) and not ctx.is_known(",".join(sorted(f))):
                        lines = [json.dumps(e) for e in ev]
                        what = "%s: %s at event %s" % (tid, ", ".join(sorted(f)), ix)
                        if isinstance(ix, int) and 0 < ix <= len(lines):
                            what += ": " + lines[ix - 1]
                        files = {"run.txt": run.batch_text([c.run]), "history.jsonl": "\n".join(lines) + "\n"}
                        files.update(("federate%d.txt" % j, c.F.text(j)) for j in range(c.F.n))
                        ctx.violation(tid, what, files)
            break
