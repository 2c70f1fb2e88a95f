"""Federations of real federates: random federated programs (as the compiler splits them), their histories for
spec/TraceRuntime (one per federate, messages as inputs), and for spec/TraceFed (protocol of a federate)."""
import struct
from prog import Prog, MS, normalise
from fed import Stream, ptag, reach, zero_cycle, TAGGED

NEVER = -(1 << 63)


class FedProg:
    def __init__(s, n):
        s.n = n
        s.P = [Prog() for _ in range(n)]
        s.links = []       # (from, to, delay: -1 none, -2 physical; port id at receiver, action, sender reaction)
        s.nin = [0] * n
        s.cross = []       # ((fed, reaction), (fed, reaction)): precedence without delay
        s.fid = "fed"
        s.dec = False      # decentralized coordination
        s.sta = [0] * n
        s.staa = {}        # (federate, action): STAA

    def fed_links(s):
        return [(a, b, d) for a, b, d, *_ in s.links if d != -2]

    def p2p(s):
        return {(a, b) for a, b, d, *_ in s.links if d == -2 or s.dec}

    def finish(s):
        """Static analysis of the whole federation: levels respect connections between federates."""
        for p in s.P:
            p.analyse()
        nodes = [(f, i) for f, p in enumerate(s.P) for i in range(len(p.X))]
        pre = {v: {(v[0], d) for d in s.P[v[0]].pred[v[1]]} for v in nodes}
        for a, b in s.cross:
            pre[b].add(a)
        lv = {}

        def level(v):
            if v not in lv:
                lv[v] = None
                lv[v] = 1 + max([level(u) for u in pre[v]], default=-1)
            assert lv[v] is not None, "cycle"
            return lv[v]
        for f, p in enumerate(s.P):
            for i in range(len(p.X)):
                p.level[i] = level((f, i))

    def text(s, f):
        p = s.P[f]
        ex = ["cfg fedid %d" % f]
        for a, b, d in sorted({(a, b, d) for a, b, d in s.fed_links()}):
            if b == f and not any(x[0] == a and x[1] == b and x[2] < d for x in s.fed_links()):
                ex.append("UP %d %d" % (a, d))
        for b in sorted({b for a, b, d in s.fed_links() if a == f}):
            ex.append("DOWN %d" % b)
        ex += ["cfg p2pout %d" % b for b in sorted({b for a, b in s.p2p() if a == f})]
        if any(b == f for a, b in s.p2p()):
            ex.append("cfg p2pin %d" % len({a for a, b in s.p2p() if b == f}))
        if s.dec:
            ex.append("cfg sta %d" % s.sta[f])
            mine = sorted({v for (g, a), v in s.staa.items() if g == f})
            ex += ["STAA %d %d %d" % (mine.index(v), v, a) for (g, a), v in s.staa.items() if g == f]
        return p.text() + "\n".join(ex) + "\n"


def gen_real(rng, n=None, zdc=0.4, stop=0.15, work=0.25, physact=0.25, physlink=0.0, deadlines=0.15, maxx=4, delays=None, fast=0.1, timeout=True, spacing=0.3,
             workers=None, dense=0, dec=False, stps=0.4, ticks=0.5, busy=0.0):
    ch = rng.random
    n = n or rng.choice([2, 2, 2, 3, 3, 4])
    F = FedProg(n)
    F.dec = dec
    U = rng.choice([MS, MS, 5 * MS, 100000])
    T = rng.randint(3, 8) * U
    isfast = 1 if ch() < fast * (not physlink) * (not dec) else 0      # not with physical connections
    # Reactions of the application in an order that respects all connections without delay.
    slots = []
    for f in range(n):
        for _ in range(rng.randint(1, maxx)):
            slots.append(f)
    rng.shuffle(slots)
    owner, rank_of = [], []
    nr = [rng.randint(1, 2) for _ in range(n)]
    for f in range(n):
        for _ in range(nr[f]):
            F.P[f].reactor()
    for k, f in enumerate(slots):
        owner.append((f, rng.randrange(nr[f])))
    m = len(slots)
    # Connections between federates: from one slot to another.
    conns = []
    fl = []
    want = rng.randint(1, n + 2) + dense
    for _ in range(want * 4):
        if len(conns) >= want:
            break
        i, j = rng.randrange(m), rng.randrange(m)
        a, b = slots[i], slots[j]
        if a == b:
            continue
        d = -1 if ch() < 0.5 else rng.choice(delays or [0, 0, U, 2 * U, U // 2 + 1])
        if physlink and ch() < physlink:
            d = -2
        if d == -1 and i >= j:
            d = rng.choice([0, U])
        if d == -1 and reach([l for l in fl if l[2] == -1], b, a) and not ch() < zdc:
            d = rng.choice([0, U])
        conns.append([i, j, d])
        if d != -2:
            fl.append((a, b, d))
    # No zero-delay connection from one zero-delay cycle to another.
    zc = zero_cycle(fl)
    for c in conns:
        a, b = slots[c[0]], slots[c[1]]
        if c[2] == -1 and a in zc and b in zc and not reach([l for l in fl if l[2] == -1], b, a):
            c[2] = 0
    fl = [(slots[i], slots[j], d) for i, j, d in conns if d != -2]
    zc = zero_cycle(fl)
    outs = {}
    for c, (i, j, d) in enumerate(conns):
        outs.setdefault(i, []).append(c)
    inq = {}
    ports = {f: [] for f in range(n)}     # local ports (port, writer slot)
    snd = {}
    recvx = {}
    for k in range(m):
        f, r = owner[k]
        p = F.P[f]
        tr, src, eff = set(), set(), []
        for c, (i, j, d) in enumerate(conns):
            if j != k:
                continue
            # the receiver
            rr = p.reactor()
            na = p.action(rr, min=0, phy=1 if d == -2 else 0, kind=1)
            if d == -2:
                F.phys = getattr(F, "phys", set()) | {f}
            q = p.port(rr, 1)
            pid = F.nin[f]
            F.nin[f] += 1
            x = p.rx(rr, [("A", na)], [], [q])
            p.op(x, "recv", na, q)
            z = 1 if d == -1 and reach([l for l in fl if l[2] == -1], f, slots[i]) else 0
            p.extra.append("NIN %d %d %d %d %d" % (pid, na, d if d != -2 else -1, slots[i], z))
            p.extra.append("NX %d 1" % x)
            p.netact = getattr(p, "netact", set()) | {na}
            recvx[c] = (x, pid, na, z)
            (tr if ch() < 0.85 else src).add(("P", q))
        if ch() < 0.35:
            t = p.timer(r, rng.choice([0, 0, U, 2 * U]), rng.choice([0, U, U, 2 * U, 3 * U]))
            tr.add(("T", t))
        if ch() < 0.2 or not tr:
            tr.add(("S", 0))
        mine = [("A", j) for j, a in enumerate(p.A) if a["r"] == r]
        if mine and ch() < 0.4:
            tr.add(rng.choice(mine))
        if ch() < 0.15:
            tr.add(("D", 0))
        if ports[f] and ch() < 0.5:
            (tr if ch() < 0.8 else src).add(("P", rng.choice(ports[f])))
        acts = []
        if ch() < 0.35:
            phy = 1 if ch() < physact * (not isfast) else 0
            sp = rng.choice([U, 1, U // 2]) if ch() < spacing else 0
            a = p.action(r, min=rng.choice([0, 0, U, 2 * U]), sp=sp, pol=rng.choice([0, 1, 2]), phy=phy, kind=rng.choice([0, 1]))
            acts.append(a)
            if ch() < 0.5:
                tr.add(("A", a))
            if phy:
                F.phys = getattr(F, "phys", set()) | {f}
                if ch() < 0.4:
                    g = len(p.ASY)
                    ts = sorted(rng.randrange(T) for _ in range(rng.randint(1, 3)))
                    p.ASY += [(f * 8 + len(p.X) % 8, t, 0, a, rng.choice([0, 0, U])) for t in ts]
                    F.asy = getattr(F, "asy", []) + [(f, k, f * 8 + len(p.X) % 8)]
        if ch() < 0.5:
            q = p.port(r, 1)
            ports[f].append(q)
            eff.append(q)
        for c in outs.get(k, []):
            if c not in snd:
                # sometimes two connections leave from one port
                q = p.port(r, 1)
                for c2 in outs[k]:
                    if c2 not in snd and (c2 == c or ch() < 0.3):
                        snd[c2] = q
                eff.append(q)
        if dec and ch() < ticks and any(j == k for i, j, d in conns):
            # Something that also happens where late messages are handled.
            ro = p.reactor()
            a = p.action(ro, min=0, pol=0, phy=0, kind=0)
            q = p.port(ro, 1)
            t = p.rx(ro, [("S", 0), ("A", a)], [], [q])
            c4 = rng.choice([2, 3, 4])
            for j in range(c4):
                p.op(t, "sched", a, 0 if j < c4 - 1 else rng.choice([U // 2, U]), lo=0, hi=40, mod=c4, rem=j)
            p.op(t, "set", q, mod=rng.choice([1, 1, 2]), rem=0)
            tr.add(("P", q))
        dl = rng.choice([0, U]) if ch() < deadlines else -1
        src -= tr
        x = p.rx(r, sorted(tr), sorted(src), sorted(set(eff)), dl)
        if dec and dl < 0 and ch() < stps:
            p.X[x]["stp"] = 1
        for h in ([False, True] if dl >= 0 or "stp" in p.X[x] else [False]):
            for q in sorted(set(eff)):
                mod = rng.choice([1, 1, 2, 3])
                if ch() < 0.9:
                    # Where time need not advance, values stop going round.
                    hi = rng.choice([3, 8, 20]) if any(snd.get(c) == q and conns[c][2] <= 0 for c in outs.get(k, [])) else -1
                    p.op(x, "set", q, mod=mod, rem=rng.randrange(mod), lo=rng.choice([0, 0, 1]), hi=hi, h=h)
            for a in acts + [j for _, j in mine][:1]:
                if a in getattr(p, "netact", ()):
                    continue
                p.op(x, "sched", a, rng.choice([0, 0, U, 2 * U]), lo=0, hi=rng.choice([20, 3]) if p.A[a]["min"] > 0 else rng.choice([2, 4]), h=h)
            if ch() < work:
                p.op(x, "work", rng.choice([U // 10, U // 2, U, 2 * U]), mod=rng.choice([1, 2]), h=h)
            if ch() < stop:
                i0 = rng.randint(0, 4)
                p.op(x, "stop", lo=i0, hi=i0 + 1, h=h)
            if ch() < 0.2:
                p.op(x, "sv", 0, 0, h=h)
        # senders
        for c in outs.get(k, []):
            q = snd[c]
            i, j, d = conns[c]
            rr = p.reactor()
            sx = p.rx(rr, [("P", q)], [], [])
            ax = -1
            # Whoever can be waited for says when it sends nothing; over a connection with a delay, too.
            z = d != -2 and (ch() < 0.5 if dec else reach([l for l in fl if l[2] == -1], slots[j], f) if d == -1 else ch() < 0.3)
            if z:
                ax = p.rx(rr, [("S", 0)], [("P", q)], [])
            F.links.append([f, slots[j], d, c, sx, ax, q])
    for _, k, g in getattr(F, "asy", []):
        pass
    # now the receivers are known
    for l in F.links:
        a, b, d, c, sx, ax, q = l
        rx_, pid, na, z = recvx[c]
        p = F.P[a]
        p.op(sx, "sendfed", q, pid, b, d)
        if d == -1:
            F.cross.append(((a, sx), (b, rx_)))
        if ax >= 0:
            p.op(ax, "sendabs", q, pid, b, d)
            p.extra.append("NX %d 2" % ax)
            if d == -1:
                F.cross.append(((a, ax), (b, rx_)))
        l += [pid, na]
        if dec and d != -2:
            F.staa[(b, na)] = rng.choice([0, 0, U // 2, U, 2 * U])
    if dec:
        F.sta = [rng.choice([0, 0, U // 4, U, 2 * U]) for _ in range(n)]
    for f, p in enumerate(F.P):
        p.cfg["workers"] = workers or rng.choice([1, 1, 2, 3])
        p.cfg["timeout"] = T
        p.cfg["keepalive"] = 1
        if isfast:
            p.cfg["fast"] = 1
        if f in getattr(F, "phys", ()):
            p.cfg["physmin"] = 0
        for ff, k, g in getattr(F, "asy", []):
            if ff == f:
                st = p.rx(owner[k][1], [("S", 0)], [], [])
                p.op(st, "async", g)
    for p in F.P:
        if ch() < busy:
            # Always has something to do at the next microstep.
            ro = p.reactor()
            a = p.action(ro, min=0, pol=0, phy=0, kind=0)
            t = p.rx(ro, [("S", 0), ("A", a)], [], [])
            k, c4 = rng.choice([30, 60, 60]), rng.choice([1, 6, 15])
            for j in range(c4):
                p.op(t, "sched", a, rng.choice([U // 2, U, 1]) if j == c4 - 1 and c4 > 1 else 0, lo=0, hi=k, mod=c4, rem=j)
            if ch() < .4:       # here the request comes from one that is behind
                p.op(t, "spin", rng.choice([20, 100, 200]), lo=0, hi=5)
                i0 = rng.randint(0, 4)
                p.op(t, "stop", lo=i0, hi=i0 + 1)
    for p in F.P:
        nin = [l for l in p.extra if l.startswith("NIN ")]
        if ch() < 0.5:     # the order of the compiler's tables is not that of the levels
            rng.shuffle(nin)
            p.extra = nin + [l for l in p.extra if not l.startswith("NIN ")]
    F.T = T
    F.finish()
    return F


class View:
    """What a federate's history takes from the network: messages, when they are sent, and the stop tag."""

    def __init__(s, F, f):
        s.F, s.f, s.node = F, f, f + 1
        s.act = {(l[1], l[7]): (l[8], l[2]) for l in F.links}
        s.absent = {l[5] for l in F.links if l[0] == f and l[5] >= 0}
        s.st, s.start = {}, 0

    def __call__(s, e):
        k = e["e"]
        if k == "fsend":
            if e["f"] != s.f:
                return False
            a, d = s.act[(e["f"], e["p"])]
            t, m = e["tg"]
            if d == -2:
                return dict(k="pnet", a=a + 1, v=e["v"], ph=e["ph"])
            if d == 0:
                m += 1
            elif d > 0:
                t, m = t + d, 0
            return dict(k="net", a=a + 1, v=e["v"], t=t, m=m, ph=-1)
        if k == "fabs":
            return False
        if k == "conn":
            if e["from"] == s.node and e["to"] == 0:
                s.st[e["c"]] = Stream(True)
            return False
        if k in ("r", "w", "shut") and "c" in e and "s" in e:
            if k == "r" and e["s"] == 0 and e["c"] in s.st:
                for m in s.st[e["c"]].feed(bytes.fromhex(e["d"])):
                    if m is None:
                        continue
                    if m[0] == 2:
                        s.start = struct.unpack("<q", m[1:9])[0]
                    if m[0] in (7, 12):
                        t = ptag(m[1:13], s.start)
                        return dict(k="ftag" if m[0] == 7 else "fstop", t=t[0], m=t[1])
            return False
        if k in ("r", "x") and e.get("n") == s.node and e["x"] in s.absent:
            return False
        return None


def histories(F, raw):
    """One history per federate for TraceRuntime.  Node 0 is the RTI, node f + 1 federate f."""
    out = []
    for f, p in enumerate(F.P):
        ev, fatal = normalise(p, raw, f + 1, DecView(F, f, raw) if F.dec else View(F, f))
        # Messages over physical connections get the tags at which they arrive.
        got = {}
        for e in ev:
            if e["k"] == "r":
                for i in e["inp"]:
                    if i[0] == "A" and i[2] == 1:
                        got.setdefault(i[1], []).append((e["t"], e["m"]))
        for j, e in enumerate(ev):
            if e["k"] == "pnet":
                q = got.get(e["a"])
                t, m = q.pop(0) if q else (-1, 0)
                ev[j] = dict(k="net", a=e["a"], v=e["v"], t=t, m=m, ph=e["ph"]) if t >= 0 else dict(k="plost", ph=e["ph"])
            elif e["k"] == "dm":     # ... and messages of logical ones those at which they are handled
                q = got.get(e["a"])
                e["t"], e["m"] = q.pop(0) if q else (-1, 0)
            elif e["k"] == "known":
                e["as"] = e.pop("as_")
        out.append((ev, fatal))
    return out


class DecView:
    """The same under decentralized coordination: messages go straight to their receivers."""

    def __init__(s, F, f, raw):
        s.F, s.f, s.node = F, f, f + 1
        s.act = {l[7]: (l[8], l[2], l[0]) for l in F.links if l[1] == f}
        s.absent = {l[5] for l in F.links if l[0] == f and l[5] >= 0}
        s.st, s.start, s.buf, s.head, s.hs = {}, 0, {}, {}, {}
        # The port that the receiver of each logical connection writes, and its action.
        p = F.P[f]
        s.rp = {}
        for x in p.X:
            for _, _, _, _, name, a in x["ops"]:
                if name == "recv":
                    s.rp[a[0]] = a[1]
        s.lnet = sorted({na for na, d, _ in s.act.values() if d != -2})
        s.port_act = {s.rp[a]: a + 1 for a in s.lnet}
        s.port_act.update({1000 + a: a + 1 for a in s.lnet})

    def delayed(s, tg, d):
        t, m = tg
        return [t, m] if d == -1 else [t, m + 1] if d == 0 else [t + d, 0]

    def __call__(s, e):
        k = e["e"]
        if k == "fsend":
            if e["f"] != s.f:
                return False
            a, d, _ = s.act[e["p"]]
            if d == -2:
                return dict(k="pnet", a=a + 1, v=e["v"], ph=e["ph"])
            return dict(k="fs", a=a + 1, v=e["v"], it=s.delayed(e["tg"], d), ph=e["ph"])
        if k == "fabs":
            if e["f"] != s.f:
                return False
            a, d, _ = s.act[e["p"]]
            t, m = s.delayed(e["tg"], d)     # nothing before the first tag that a message may still have
            return dict(k="fa", a=a + 1, it=[t, m] if d <= 0 else [t - 1, 1000000000])
        if k == "conn":
            if e["from"] == s.node and e["to"] == 0:
                s.st[e["c"]] = Stream(True)
            elif e["to"] == s.node:
                s.buf[e["c"]] = b""
                s.hs[e["c"]] = e["from"] - 1
            return False
        if k == "eof" and e["c"] in s.hs and e["s"] == 1:
            return dict(k="known", as_=[a + 1 for a, d, src in s.act.values() if src == s.hs[e["c"]] and d != -2], it=[2000000000, 0], ph=e["now"] - s.start, ab=0)
        if k in ("r", "w", "shut", "eof") and "c" in e and "s" in e:
            c = e["c"]
            if k == "r" and e["s"] == 0 and c in s.st:
                for m in s.st[c].feed(bytes.fromhex(e["d"])):
                    if m and m[0] == 2:
                        s.start = struct.unpack("<q", m[1:9])[0]
                    if m and m[0] == 12:
                        t = ptag(m[1:13], s.start)
                        return dict(k="fstop", t=t[0], m=t[1])
            if k == "r" and e["s"] == 1 and c in s.buf:
                return s.feed(c, bytes.fromhex(e["d"]), e["now"])
            return False
        if k in ("r", "x") and e.get("n") == s.node and e["x"] in s.absent:
            return False
        return None

    def feed(s, c, data, now):
        b = s.buf[c] = s.buf[c] + data
        if not b:
            return False
        if b[0] == 16:
            n = 4 + b[3] if len(b) >= 4 else 99
            if len(b) >= n:
                s.buf[c] = b[n:]
            return False
        if b[0] == 17:
            n = 9 + struct.unpack("<I", b[5:9])[0] if len(b) >= 9 else 99
            if len(b) >= n:
                s.buf[c] = b""
            return False
        if b[0] == 23:
            if len(b) < 17:
                return False
            s.buf[c] = b""
            port = struct.unpack("<H", b[1:3])[0]
            t, m = ptag(b[5:17], s.start)
            return dict(k="known", as_=[s.act[port][0] + 1] if port in s.act else [], it=[t, m], ph=now - s.start, ab=1)
        if b[0] == 18:
            if len(b) < 21:
                return False
            s.head.setdefault(c, now - s.start)
            if len(b) < 21 + struct.unpack("<I", b[5:9])[0]:
                return False
            s.buf[c] = b""
            port = struct.unpack("<H", b[1:3])[0]
            v = struct.unpack("<i", b[21:25])[0] if len(b) == 25 else -1
            t, m = ptag(b[9:21], s.start)
            hp = s.head.pop(c)
            return dict(k="dm", a=s.act[port][0] + 1, v=v, it=[t, m], hp=hp, ph=now - s.start) if port in s.act else dict(k="garbled")
        return dict(k="garbled")


NAMES = {255: "ACK", 0: "REJECT", 19: "T1", 21: "T4", 20: "T3", 24: "NBR", 254: "UDP", 4: "RESIGN", 25: "FAILED", 14: "ADDR", 15: "ADV", 13: "QUERY", 2: "TIME", 1: "IDS"}


def protocol(F, f, raw):
    """The history of federate f for TraceFed: what it executes and what it exchanges with the RTI."""
    out, st, start, node = [], {}, 0, f + 1
    z = {(l[1], l[7]) for l in F.links if l[0] == f and l[5] >= 0}
    cur = {}

    def ev(op, k="", t=(0, 0), x=0, d=0, a=0, v=0, dl=0, z=0):
        out.append(dict(op=op, k=k, t=list(t), x=x, d=d, a=a, v=v, dl=dl, z=z))
    for e in raw:
        k = e["e"]
        if k == "conn" and e["from"] == node and e["to"] == 0:
            st[e["c"]] = (Stream(True), Stream(False))
        elif k in ("r", "w") and "c" in e:
            if e["c"] in st and e["s"] == 0:
                for m in st[e["c"]][0 if k == "r" else 1].feed(bytes.fromhex(e["d"])):
                    op = "rd" if k == "r" else "wr"
                    if m is None:
                        ev("?", "garbled")
                    elif m[0] in TAGGED:
                        ev(op, TAGGED[m[0]], ptag(m[1:13], start))
                    elif m[0] in (5, 23):
                        a, d = struct.unpack("<HH", m[1:5])
                        ev(op, "MSG" if m[0] == 5 else "ABS", ptag(m[9:21] if m[0] == 5 else m[5:17], start), d=d, a=a,
                           v=struct.unpack("<i", m[21:25])[0] if m[0] == 5 and len(m) == 25 else 0, z=1 if (d, a) in z else 0)
                    else:
                        if m[0] == 2 and k == "r":
                            start = struct.unpack("<q", m[1:9])[0]
                        ev(op, NAMES.get(m[0], "?"))
        elif k == "exit" and e["node"] == node:
            ev("end", a=e["code"])
        elif e.get("n") == node:
            if k == "r":
                cur[e["x"]] = e["tg"]
                ev("B", t=e["tg"], x=e["x"])
            elif k == "x":
                ev("E", x=e["x"])
            elif k == "fsend" and e["d"] != -2:
                ev("snd", "MSG", e["tg"], d=e["f"], a=e["p"], v=e["v"], dl=e["d"])
            elif k == "fabs":
                ev("snd", "ABS", e["tg"], d=e["f"], a=e["p"], dl=e["d"])
    return out


def protocol_record(F, f):
    L = F.fed_links()
    return dict(up=1 if any(l[1] == f for l in L) else 0, down=1 if any(l[0] == f for l in L) else 0, tmo=[F.T, 0],
                n=F.n, lk=[dict(f=a + 1, t=b + 1, d=d) for a, b, d in L])


def record(F, f):
    p = F.P[f]
    r = p.record(jit=1, leak=0)
    absent = {l[5] + 1 for l in F.links if l[0] == f and l[5] >= 0}
    r["su"] = [x for x in r["su"] if x not in absent]
    r["fed"] = 1
    if F.dec:
        v = DecView(F, f, ())
        r.update(fed=2, lnet=[a + 1 for a in v.lnet], sta=F.sta[f], tmo2=[F.T, 0])
        for na, d, src in v.act.values():
            if d != -2:
                r["ac"][na].update(src=src + 1, dly=d, staa=F.staa[(f, na)], rp=v.rp[na] + 1)
    r["net"] = sorted(x + 1 for x in getattr(p, "netact", ()))
    return r


def nodes(F, rti, feds, rng=None):
    return [(rti, "rti_entry", 0, 0, "-i %s -n %d -c off" % (F.fid, F.n))] + [(feds[f], "prog_main", 0, 0, F.text(f)) for f in range(F.n)]
