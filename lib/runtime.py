"""Single-node programs: random programs and schedules, histories checked against spec/TraceRuntime."""
import json
import run
from gen import gen
from prog import normalise

ORDER = {"backward", "badtag", "missed", "notenabled", "again", "afterstop", "incomplete", "endearly", "twice", "unknown"}
FLAGS = {
    "R01": ORDER,
    "R02": {"badtag", "missed", "schedret", "stoptag", "inputs", "notenabled", "backward", "endearly", "afterstop", "incomplete"},
    "R03": {"precedence", "mutex", "inputs", "statevar", "again", "notenabled", "incomplete", "missed", "twice"},
    "R04": {"inputs", "multiport", "notenabled", "missed", "incomplete", "again"},
    "R05": ORDER | {"stoptag"},
    "R06": ORDER,
    "R07": {"early", "late", "deadline", "checkdeadline", "wdmutex", "notenabled", "missed", "incomplete", "again", "twice"},
    "R08": ORDER | {"inputs", "statevar", "precedence", "mutex"},
    "R13": ORDER | {"inputs", "statevar", "leak", "freelive", "doublefree", "deadvalue"},
    "R09": {"deadvalue", "doublefree", "freelive", "leak", "sharedcopy", "inputs"},
    "R10": {"wdmissed", "wdunexpected", "wdearly", "wdmutex"},
    "R11": {"late", "endearly", "incomplete", "missed", "afterstop"},
    "R12": {"late", "stoptag", "afterstop", "endearly", "incomplete", "missed", "badtag", "notenabled", "early"},
}


class Case:
    __slots__ = ("rid", "params", "prog", "so", "jit", "leak", "wdlag")

    def __init__(s, rid, params, prog, so, jit=0, leak=1, wdlag=0):
        s.rid, s.params, s.prog, s.so, s.jit, s.leak, s.wdlag = rid, params, prog, so, jit, leak, wdlag

    def run(s):
        return (s.rid, s.params, [(s.so, "prog_main", 0, 0, s.prog.text())])


def judge(ctx, cases, n_per_tlc=None):
    """Simulates the cases and checks their histories.  Returns {rid: (flags, index, events)} of the failing ones."""
    out = run.simulate(ctx.bin, [c.run() for c in cases], ctx.work)
    bad, traces = {}, []
    for c in cases:
        if c.rid not in out:
            raise run.Infra("no history for " + c.rid)
        ev, fatal = normalise(c.prog, out[c.rid])
        if fatal:
            bad[c.rid] = ({"fatal"}, ",".join(sorted(set(fatal))), out[c.rid])
        else:
            traces.append(dict(id=c.rid, p=c.prog.record(jit=c.jit, leak=c.leak, wdlag=c.wdlag), ev=ev))
    v, g, d = run.validate(traces, ctx.work)
    for t in traces:
        f, ix = v[t["id"]]
        if f:
            bad[t["id"]] = (f, ix, t["ev"])
    ctx.tlc_count(g, d)
    ctx.traces += len(traces)
    ctx.events += sum(len(t["ev"]) for t in traces)
    return bad, traces


def strategy(rng):
    k = rng.random()
    if k < 0.35:
        return dict(strat=1, sw=rng.choice([5, 30, 100]), stall=rng.choice([10, 30, 100]), stlen=rng.choice([30, 100, 300, 1000]))
    if k < 0.8:
        return dict(strat=1, sw=rng.choice([2, 5, 30, 70, 100]))
    return dict(strat=2, pctd=rng.choice([2, 4, 8]), pctlen=rng.choice([200, 1000, 4000]))


def check(ctx, pid, plan, flags=None, size=2400):
    """plan: list of (config, number of programs, features); every feature dict may hold modal=True, jitter=p."""
    flags = flags or FLAGS[pid]
    ctx.build(*sorted({c for c, _, _ in plan}))
    allc = []
    for k, (cfgname, n, feat) in enumerate(plan):
        for i in range(n):
            rng = ctx.rng(k, i)
            f = dict(feat)
            modal = f.pop("modal", False)
            jitp = f.pop("jitter", 0.0)
            th = not cfgname.endswith("st")
            if not th:
                f.pop("watchdogs", None), f.pop("asyncs", None)
            p = gen(rng, modal=int(modal), **f)
            params = dict(seed=rng.randrange(1 << 30), **strategy(rng))
            jit = 0
            if rng.random() < jitp:
                params["jitter"] = rng.choice([1, 3, 10])
                jit = 1
            allc.append(Case("%s-%d-%d" % (cfgname, k, i), params, p, ctx.so(cfgname), jit=jit, leak=1))
    for a in range(0, len(allc), size):
        part = allc[a:a + size]
        bad, traces = judge(ctx, part)
        for t in traces[:1]:
            ctx.sample(dict(history=t["id"], events=t["ev"][:12]))
        hit = [c for c in part if c.rid in bad and (bad[c.rid][0] & flags or "fatal" in bad[c.rid][0])]
        if hit:
            again, _ = judge(ctx, hit[:20])
            for c in hit[:20]:
                if c.rid in again and again[c.rid][0] == bad[c.rid][0]:
                    report(ctx, c, again[c.rid])
            break
    return allc


def report(ctx, c, b):
    f, ix, ev = b
    what = "%s: %s at event %s" % (c.rid, ", ".join(sorted(f)), ix)
    lines = [json.dumps(e) for e in ev]
    if isinstance(ix, int):
        what += ": " + (lines[ix - 1] if 0 < ix <= len(lines) else "")
    ctx.violation(c.rid, what, {"run.txt": run.batch_text([c.run()]), "program.txt": c.prog.text(), "history.jsonl": "\n".join(lines) + "\n"})
