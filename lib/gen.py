"""Random programs.  Every program terminates: it has a timeout, or a bounded number of operations."""
from prog import Prog, MS


def gen(rng, workers=None, tokens=0.2, deadlines=0.2, physical=0.2, stop=0.15, spacing=0.4, multiport=0.15, fast=0.2, asyncs=0.0,
        maxx=9, work=0.25, timeout=0.8, keep=0.1, le=True, watchdogs=0.0, chk=0.0, negative=0.1, big=0.0, zero=0.03, shut=0.5, timers=1, modal=0, nested=0.4,
        span=(1, 2, 3, 4, 6, 9), drivers=0.5, reactors=(1, 2, 3, 4)):
    p = Prog()
    ch = rng.random
    U = rng.choice([MS, 5 * MS, 10 * MS, 1000, 100000]) if ch() < 0.9 else 1
    nr = rng.choice(reactors)
    for _ in range(nr):
        p.reactor()
    nx = rng.randint(2, maxx)
    owner = [rng.randrange(nr) for _ in range(nx)]
    own = {r: [] for r in range(nr)}      # modes of every reactor
    if modal:
        reactors_with_modes(p, rng, nr, nested, own)
        owner = [rng.choice([r, r, rng.randrange(nr)]) for r in owner for r in [rng.choice([k for k in own if own[k]])]]

    def place(r):
        return rng.choice(own[r]) if own[r] and ch() < 0.8 else p.R[r]["pmode"]
    used = sorted(set(owner))
    for r in used:
        for _ in range(rng.choice([0, 1, 1, 2]) * timers):
            p.timer(r, rng.choice([0, 0, U, 2 * U, 3 * U]), rng.choice([0, U, 2 * U, 3 * U]), mode=place(r) if modal else None)
        for _ in range(rng.choice([0, 1, 1, 2])):
            phy = 1 if ch() < physical else 0
            sp = rng.choice([U, 2 * U, 1, U // 2]) if ch() < spacing else 0
            kind = 2 if ch() < tokens else rng.choice([0, 1])
            md = place(r) if modal else -1
            p.action(r, min=rng.choice([0, 0, U, 2 * U]), sp=0 if md >= 0 else max(sp, 0), pol=rng.choice([0, 1, 2]), phy=phy, kind=kind, mode=md)
    if not p.T:
        p.timer(used[0], 0, U)
    has_wd = set()
    if ch() < watchdogs:
        for r in used:
            if ch() < 0.6:
                p.watchdog(r, rng.choice([0, U, 2 * U, 3 * U + 7]))
                has_wd.add(r)
                if ch() < 0.3:
                    p.watchdog(r, rng.choice([U, 2 * U]))
    ports = []  # (port, writer index)
    shut = ch() < shut
    for i in range(nx):
        r = owner[i]
        md = place(r) if modal else -1
        tr = set()
        cand = [("T", j) for j, t in enumerate(p.T) if t["r"] == r] + [("A", j) for j, a in enumerate(p.A) if a["r"] == r]
        if modal:     # what belongs to another mode is out of reach
            cand = [(k, j) for k, j in cand if (p.T if k == "T" else p.A)[j]["md"] in (md, p.R[r]["pmode"])]
        pc = [("P", q) for q, w in ports if w < i]
        if ch() < 0.25:
            tr.add(("S", 0))
        for _ in range(rng.choice([1, 1, 2, 3])):
            if pc and ch() < 0.6:
                tr.add(rng.choice(pc))
            elif cand:
                tr.add(rng.choice(cand))
        if shut and ch() < 0.3:
            tr.add(("D", 0))
        if md >= 0 and ch() < 0.2:
            tr.add(("Z", 0))
        if not tr:
            tr.add(("S", 0))
        src = {c for c in pc + [c for c in cand if c[0] == "A"] if ch() < 0.1} - tr
        eff = []
        if i < nx - 1 and ch() < 0.7:
            if ch() < multiport and len(p.G) < 8:
                g = len(p.G)
                k = rng.randint(2, 6)
                p.G[g] = rng.choice([-1, 1, 2, k])
                for c in range(k):
                    q = p.port(r, 1, g, c)
                    ports.append((q, i))
                    eff.append(q)
            else:
                for _ in range(rng.choice([1, 1, 2])):
                    q = p.port(r, rng.choice([2, 2, 3]) if ch() < tokens else 1)
                    ports.append((q, i))
                    eff.append(q)
        # a second writer of an own port
        mine = [q for q, w in ports if p.P[q]["r"] == r and w < i and p.P[q]["group"] < 0]
        if mine and ch() < 0.15:
            q = rng.choice(mine)
            if not any(("P", q) in x["tr"] + x["src"] for x in p.X) and ("P", q) not in tr | src:
                eff.append(q)
        dl = rng.choice([0, U // 2, U, 2 * U]) if ch() < deadlines else -1
        x = p.rx(r, sorted(tr), sorted(src), eff, dl, mode=md)
        for h in ([False, True] if dl >= 0 else [False]):
            body(p, rng, x, U, h, tokens, stop, work, negative, chk)
        if md in own[r] and ch() < 0.7:
            for _ in range(rng.choice([1, 1, 2])):
                m = rng.choice([1, 1, 2, 3])
                p.op(x, "mode", rng.choice([k for k in own[r] if k != md]), rng.choice([1, 2]), mod=m, rem=rng.randrange(m), lo=0, hi=rng.choice([3, 10, 40]))
            for ops in (p.X[x]["ops"],):
                while len(ops) > 12:
                    ops.pop(rng.randrange(len(ops)))
    if modal and ch() < 0.5:
        p.cfg["svreset"] = 1
    if modal and ch() < drivers:
        drive(p, rng, own, U)
    if p.W:
        for x in range(nx):
            ws = [j for j, w in enumerate(p.W) if w["r"] == owner[x]]
            for w in ws:
                if ch() < 0.7:
                    p.op(x, "wdstart", w, rng.choice([0, U, 3 * U]), mod=rng.choice([1, 2, 3]), rem=0)
                if ch() < 0.3:
                    p.op(x, "wdstop", w, mod=rng.choice([2, 3]), rem=1)
        for w in p.W:
            acts = [j for j, a in enumerate(p.A) if a["r"] == w["r"] and a["phy"]]
            if acts and ch() < 0.5:
                w["ops"].append((0, 5, 1, 0, "sched", [rng.choice(acts), 0]))
            # watchdogs started and stopped by the handler of a watchdog (its own, or another one of the same reactor)
            same = [j for j, v in enumerate(p.W) if v["r"] == w["r"]]
            if ch() < 0.5:
                w["ops"].append((0, rng.choice([2, 6]), rng.choice([1, 2]), 0, "wdstart", [rng.choice(same), rng.choice([0, U, 3 * U])]))
            if ch() < 0.15:
                w["ops"].append((0, 6, 1, 0, "wdstop", [rng.choice(same)]))
            if ch() < 0.2:
                w["ops"].append((0, 6, 1, 0, "work", [rng.choice([U // 2, 2 * U])]))
    if asyncs and ch() < asyncs:
        pa = [j for j, a in enumerate(p.A) if a["phy"]]
        if pa:
            t = 0
            for g in range(rng.choice([1, 1, 2])):
                t = 0
                for _ in range(rng.randint(1, 6)):
                    t += rng.choice([0, 1, U // 3, U - 1, U, U, U + 1, 2 * U - 1])
                    at = t if ch() < 0.5 else max(0, (t // U + 1) * U - rng.choice([1, 1, 2, 3]))
                    t = max(t, at)
                    p.ASY.append((g, at, 0, rng.choice(pa), rng.choice([0, 0, U])))
                if ch() < 0.2:
                    p.ASY.append((g, t + U, 1, 0, 0))
            st = [x for x in range(nx) if ("S", 0) in p.X[x]["tr"]]
            if not st:
                st = [p.rx(used[0], [("S", 0)])]
                owner.append(used[0])
            for g in {a[0] for a in p.ASY}:
                p.op(st[0], "async", g, lo=0, hi=1)
    periodic = any(t["per"] > 0 for t in p.T)
    if periodic or ch() < timeout or asyncs:
        p.cfg["timeout"] = U * rng.choice(span) + rng.choice([0, 0, 0, 1])
        if ch() < zero:
            p.cfg["timeout"] = 0
        if ch() < keep:
            p.cfg["keepalive"] = 1
    if ch() < fast and not p.ASY and not p.W:
        p.cfg["fast"] = 1
    p.cfg["workers"] = workers if workers else rng.choice([1, 2, 2, 3, 4])
    p.analyse(le)
    return p


def reactors_with_modes(p, rng, nr, nested, own):
    """Modal reactors, and reactors inside modes of those above them."""
    some = rng.randrange(nr)
    for r in range(nr):
        R = p.R[r]
        above = [m for k in range(r) for m in own[k]]
        if above and rng.random() < nested:
            R["pmode"] = rng.choice(above)
        if r == some or rng.random() < 0.5:
            R["nmodes"] = rng.choice([2, 2, 3])
            own[r] = [p.mode(r) for _ in range(R["nmodes"])]
            R["init"] = rng.choice(own[r])


def drive(p, rng, own, U):
    """Timers and reactions in modes that only count time, and leave the mode after some time."""
    for r in own:
        for m in own[r] or ([p.R[r]["pmode"]] if p.R[r]["pmode"] >= 0 else []):
            if rng.random() < 0.7:
                per = rng.choice([0, U, 2 * U, 5 * U, 40 * U])
                t = p.timer(r, rng.choice([0, U, U, 2 * U, 3 * U]), per, mode=m)
                x = p.rx(r, [("T", t)] + ([("Z", 0)] if rng.random() < 0.2 and own[r] else []), mode=m)
                if len(own[r]) > 1 and rng.random() < 0.7:
                    k = rng.choice([1, 1, 2, 3])
                    p.op(x, "mode", rng.choice([k for k in own[r] if k != m]), rng.choice([1, 2]), mod=k, rem=rng.randrange(k), lo=0, hi=rng.choice([4, 15, 30]))


def body(p, rng, x, U, h, tokens, stop, work, negative, chk):
    ch = rng.random
    X = p.X[x]
    if work and ch() < work:
        p.op(x, "work", rng.choice([1, U // 2, U, 2 * U, 3]), mod=rng.choice([1, 2, 3]), h=h)
    if ch() < 0.3:
        p.op(x, "spin", rng.randint(1, 6), h=h)
    if chk and not h and X["dl"] >= 0 and ch() < chk:
        p.op(x, "chkdl", rng.choice([0, 0 if h else 1]), h=h)
    acts = [j for j, a in enumerate(p.A) if a["r"] == X["r"] and a["md"] in (X["md"], p.R[X["r"]]["pmode"])]
    anyin = [j for k, j in X["tr"] + X["src"] if k == "P" and p.P[j]["kind"] >= 2]
    tokin = [j for j in anyin if p.P[j]["kind"] == 2]
    acin = [j for k, j in X["tr"] + X["src"] if k == "A" and p.A[j]["kind"] == 2]
    for a in acts:
        if ch() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                d = rng.choice([0, 0, U, 2 * U, 3, U // 2])
                if ch() < negative:
                    d = -U
                p.op(x, "sched", a, d, lo=0, hi=rng.choice([2, 4, 8]), mod=rng.choice([1, 1, 2]), rem=0, h=h)
        if p.A[a]["kind"] == 2:
            if tokin and ch() < 0.4:
                p.op(x, "schedfwd", rng.choice(tokin), a, rng.choice([0, U]), 0, lo=0, hi=6, h=h)
            if acin and ch() < 0.4:
                p.op(x, "schedfwd", rng.choice(acin), a, rng.choice([0, U]), 1, lo=0, hi=6, h=h)
    for q in rng.sample(X["eff"], len(X["eff"])):
        same = [j for j in anyin if p.P[j]["kind"] == p.P[q]["kind"]]
        if same and ch() < 0.5:
            p.op(x, rng.choice(["fwd", "wcopy"]), rng.choice(same), q, h=h)
        elif ch() < 0.85:
            m = rng.choice([1, 1, 1, 2, 3])
            p.op(x, "set", q, mod=m, rem=rng.randrange(m), h=h)
            if ch() < 0.1:
                p.op(x, "set", q, mod=m, h=h)
    if anyin and ch() < 0.2:
        p.op(x, "wcopy", rng.choice(anyin), -1, h=h)
    if ch() < 0.3:
        p.op(x, "sv", 0, 0, h=h)
    if p.M and ch() < 0.4:
        p.op(x, "sv", 1, 0, h=h)
    gs = {p.P[j]["group"] for k, j in X["tr"] + X["src"] if k == "P"}
    for g in gs:
        if g >= 0:
            # iterate only over multiports read completely
            mem = [j for j, q in enumerate(p.P) if q["group"] == g]
            if X["r"] != p.P[mem[0]]["r"] or True:
                rd = {j for k, j in X["tr"] + X["src"] if k == "P"}
                for j in mem:
                    if j not in rd:
                        X["src"].append(("P", j))
                p.op(x, "miter", g, h=h)
    if stop and ch() < stop:
        n = rng.randint(0, 6)
        p.op(x, "stop", lo=n, hi=n + 1, h=h)
    # at most 12 operations
    ops = X["hops"] if h else X["ops"]
    while len(ops) > 12:
        ops.pop(rng.randrange(len(ops)))
