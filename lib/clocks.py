"""Federations whose clocks are synchronized: spec/ClockSync and spec/TraceClock against the real RTI and real federates."""
import json, struct
import fedprog, run
from fed import Stream
from runtime import strategy

LIM = 2100000000
T1, T3, T4, PR = 19, 20, 21, 22
NM = {T1: "T1", T3: "T3", T4: "T4", PR: "PR"}


def lim(x):
    return max(-LIM, min(LIM, x))


class Case:
    def __init__(s, ctx, rid, cfg, rng):
        s.rid, s.cfg = rid, cfg
        s.n = n = rng.choice([1, 2, 2, 3])
        s.F = F = fedprog.FedProg(n)
        s.period = rng.choice([1, 2, 5]) * 1000000
        s.T = rng.choice([60, 100, 200]) * 1000000
        s.lone, s.work = 1, 0
        s.quiet = int(rng.random() < .7)
        s.long = cfg == "fedcs" and not s.quiet and rng.random() < .5      # seconds: messages that are lost cost a second each
        if s.long:
            s.T = rng.choice([3000, 5000, 8000]) * 1000000
        for f in range(n):
            p = F.P[f]
            p.cfg.update(workers=rng.choice([1, 2]), timeout=s.T)
            for _ in range(rng.randint(1, 2)):
                r = p.reactor()
                t = p.timer(r, rng.choice([0, 0, 333333, 1000000]), rng.choice([500000, 2000000, 1700001, 5000000]) * (100 if s.long else 1))
                x = p.rx(r, [("T", t)])
                p.op(x, "clk")
                if rng.random() < .4:       # many readings, close together: across an adjustment
                    k, w = rng.choice([3, 10, 20]), rng.choice([500, 3000, 10000])
                    for _ in range(k):
                        p.op(x, "work", w)
                        p.op(x, "clk")
                    s.work += k * w
        F.finish()
        lo = rng.choice([0, 10, 1000, 50000, 500000])
        hi = lo + rng.choice([0, 50, 5000, 30000, 45000])
        s.wd = rng.choice([0, 0, 50, 2000, 30000, 40000])
        s.wd0 = rng.choice([0, s.wd])      # the RTI's
        ulo, uhi = (lo, hi) if s.quiet else (rng.choice([0, 1000, 100000]), 0)
        if not s.quiet:
            uhi = ulo + rng.choice([0, 50000, 150000, 400000, 1000000])
        s.loss = 0 if s.quiet else rng.choice([0, 0, 10, 30] if not s.long else [2, 5, 10, 30])
        s.uhi = uhi
        params = dict(seed=rng.randrange(1 << 30), quiet=1, maxemit=200000, latlo=lo, lathi=hi, ulatlo=ulo, ulathi=uhi, loss=s.loss, wdelay=s.wd, wdelay0=s.wd0, **strategy(rng))
        s.hi = hi
        s.ppm = [rng.choice([0, 0, 20, 200, 500, -20, -200, -500]) for _ in range(n)]
        # A clock with ppm has drifted since time 0 already: a million seconds' worth of microseconds before the start (10^12 ns).
        s.off = [rng.choice([0, 1000, 5000000, 200000000, -1000, -5000000, -200000000, -30000000000, rng.randrange(-10**9, 2 * 10**8)]) - 1000000 * m
                 for m in s.ppm]
        mode = "on period %d exchanges-per-interval 10" % s.period if cfg == "fedcs" else "init exchanges-per-interval 10"
        s.run = (rid, params, [(ctx.so("rti"), "rti_entry", 0, 0, "-i fed -n %d -c %s" % (n, mode))] +
                 [(ctx.so("%s_%d" % (cfg, k)), "prog_main", s.off[k], s.ppm[k], F.text(k)) for k in range(n)])

    def traces(s, raw):
        fatal = [e["e"] for e in raw if e["e"] in ("deadlock", "livelock", "runaway", "crash", "assert", "died", "too_many_threads", "misuse", "fatal")
                 or e["e"] == "exit" and e.get("code")]
        out = []
        for f in range(s.n):
            node, ev, st = f + 1, [], {}
            base = None

            def add(k, m, t, d=0, **kw):
                # What has to go on is told in microseconds (u), however late it is.
                if k in ("try", "end", "ask", "answer", "lost"):
                    ev.append(dict(k=k, m=m, t=0, d=0, p=0, tg=0, u=(t - base) // 1000))
                elif t - base < 2100000000:
                    ev.append(dict(k=k, m=m, t=t - base, d=lim(d), p=kw.get("p", 0), tg=kw.get("tg", 0), u=(t - base) // 1000))
            for e in raw:
                if base is None and "now" in e:
                    base = e["now"]
                k = e["e"]
                if k == "conn" and e["from"] == node and e["to"] == 0:
                    st[e["c"]] = (Stream(True), Stream(False))
                elif k in ("r", "w") and "c" in e and e["c"] in st:
                    # What the federate reads, the RTI has written, and the other way round.
                    way = 0 if (k == "r") == (e["s"] == 0) else 1
                    key = (e["c"], e["s"], k)
                    if key not in st:
                        st[key] = Stream(way == 0)
                    for m in st[key].feed(bytes.fromhex(e["d"])):
                        if m and m[0] in NM:
                            d = 0
                            if way == 0:
                                d = struct.unpack("<q", m[1:9])[0] - (e["now"] if k == "w" else base)
                            add(k, NM[m[0]], e["now"], d)
                elif k == "ul" and e["o"] == node and e["d"].startswith("%02x" % T1):
                    add("try", "", e["now"])
                elif k == "ul" and e["n"] == node:
                    add("lost", "", e["now"])
                elif k in ("uw", "ur"):
                    b = bytes.fromhex(e["d"])
                    mine = e["n"] == node or (k == "uw" and e["o"] == node) or (b and b[0] == T3 and struct.unpack("<i", b[1:5])[0] == f)
                    if not mine or not b:
                        continue
                    if b[0] not in NM or len(b) != (5 if b[0] == T3 else 9):
                        add("bad", "", e["now"])
                        continue
                    if b[0] == T3 and struct.unpack("<i", b[1:5])[0] != f:
                        if e["n"] == node:
                            add("bad", "", e["now"])
                        continue
                    d = struct.unpack("<q", b[1:9])[0] - (e["now"] if k == "uw" else base) if b[0] != T3 else 0
                    if k == "uw" and b[0] == T1:
                        add("try", "", e["now"])
                    add(k[1], NM[b[0]], e["now"], d)
                    if k == "ur" and b[0] == T1:
                        add("ask", "", e["now"])
                    elif k == "uw" and b[0] == T3:
                        add("answer", "", e["now"])
                elif k == "clk" and e["n"] == node:
                    add("clk", "again" if st.get("lt") == e["lt"] else "", e["now"], p=max(-40000000, min(40000000, e["p"] - e["now"])), tg=lim(e["lt"] - e["p"]))
                    st["lt"] = e["lt"]
                elif k == "exit" and e["node"] == node:
                    add("end", "", e["now"])
            wins = 1
            # The longest time between two rounds: every federate may cost the time after which the RTI gives up.
            s.gap = (s.period + s.n * (1100000000 + 4 * (max(s.hi, s.uhi) + s.wd)) + 500000000) // 1000 if s.cfg == "fedcs" else 2000000000
            if s.cfg == "fedcs" and s.quiet:
                # Each round may be stretched by the messages of all federates.
                per = s.period + s.n * 4 * (s.hi + s.wd + 1000)
                wins = 1 + max(0, (s.T // per - 12) // 10)
            out.append(dict(id="%s.%d" % (s.rid, f), ev=ev, p=dict(n=10, att=10, ppm=abs(s.ppm[f]), quiet=s.quiet, lone=s.lone, wins=wins, slack=2000, wd=s.wd, work=s.work, gap=s.gap)))
        return out, sorted(set(fatal))


def judge(ctx, cases):
    raw = run.simulate(ctx.bin, [c.run for c in cases], ctx.work)
    bad, T = {}, []
    for c in cases:
        if c.rid not in raw:
            raise run.Infra("no history for " + c.rid)
        t, fatal = c.traces(raw[c.rid])
        if fatal:
            bad[c.rid] = [(c.rid, {"fatal"}, ",".join(fatal), raw[c.rid][-200:])]
        else:
            T += t
    v, g, d = run.validate(T, ctx.work, "TraceClock")
    ctx.tlc_count(g, d)
    ctx.traces += len(T)
    ctx.events += sum(len(t["ev"]) for t in T)
    for t in T[:1]:
        ctx.sample(dict(history=t["id"], events=t["ev"][:12]))
    for t in T:
        f, ix = v[t["id"]]
        if f:
            bad.setdefault(t["id"].rsplit(".", 1)[0], []).append((t["id"], f, ix, t["ev"]))
    return bad


def check(ctx, plan, size=1000):
    ctx.model("MCClock", "MCClock.cfg")
    for cfg in sorted({c for c, _ in plan}):
        ctx.build("rti", cfg, copies={cfg: 3})
    cases = [Case(ctx, "%s-%d" % (cfg, i), cfg, ctx.rng(cfg, i)) for cfg, n in plan for i in range(n)]
    for a in range(0, len(cases), size):
        part = cases[a:a + size]
        bad = judge(ctx, part)
        hit = [c for c in part if c.rid in bad][:20]
        if hit:
            again = judge(ctx, hit)
            for c in hit:
                for tid, f, ix, ev in again.get(c.rid, []):
                    if any(o[0] == tid and o[1] == f for o in bad[c.rid]):
                        lines = [json.dumps(e) for e in ev]
                        what = "%s: %s at event %s" % (tid, ", ".join(sorted(f)), ix)
                        if isinstance(ix, int) and 0 < ix <= len(lines):
                            what += ": " + lines[ix - 1]
                        ctx.violation(tid, what, {"run.txt": run.batch_text([c.run]), "history.jsonl": "\n".join(lines) + "\n"})
            break
