"""The RTI with federates: random federations, byte streams parsed into histories for spec/TraceRTI."""
import hashlib, json, struct
import run

INF = 2000000000
I64MAX, I64MIN = (1 << 63) - 1, -(1 << 63)
TAGGED = {6: "NET", 7: "TAG", 8: "PTAG", 9: "LTC", 10: "SREQ", 11: "SREP", 12: "SGRANT"}


class Fedn:
    """A federation of scripted federates."""

    def __init__(s):
        s.n, s.fid, s.links, s.evs, s.plans, s.bad, s.stop = 2, "fed", [], [], [], [], (50, 0)
        s.join, s.hb, s.opt = {}, [], dict(slow=20, pmsg=60, pabs=50, big=10, port=15045, query=0)

    def text(s):
        o = s.opt
        out = ["n %d" % s.n, "fid %s" % s.fid, "opt %d %d %d %d %d %d" % (o["slow"], o["pmsg"], o["pabs"], o["big"], o["port"], o["query"])]
        if s.stop:
            out.append("stop %d %d" % s.stop)
        out += ["link %d %d %d %d %d" % l for l in s.links]
        out += ["ev %d %d %d" % e for e in s.evs]
        out += ["join %d %d" % j for j in s.join.items()]
        out += ["hb %d" % h for h in s.hb]
        out += ["plan %d %s %d" % p for p in s.plans]
        out += ["bad %s %d %d" % b for b in s.bad]
        return "\n".join(out) + "\n"

    def rti_args(s):
        return "-i %s -n %d -c off" % (s.fid, s.n) + (" -p %d" % s.opt["port"] if s.opt["port"] != 15045 else "")


class Stream:
    """Splits a byte stream into messages."""

    def __init__(s, from_rti):
        s.b, s.from_rti, s.first, s.udp = b"", from_rti, True, False

    def need(s):
        b = s.b
        t = b[0]
        n = len(b)
        if not s.from_rti and s.first:
            if t == 1:
                return 4 + b[3] if n >= 4 else None
            return 4
        if t in TAGGED:
            return 13
        if t == 5:
            return 21 + struct.unpack("<I", b[5:9])[0] if n >= 9 else None
        if t == 23:
            return 17
        if t == 2:
            return 9
        if s.from_rti:
            return {255: 1, 0: 2, 19: 9, 21: 9, 14: 9, 25: 1}.get(t, 0)
        if t == 24:
            return 9 + 10 * struct.unpack("<I", b[1:5])[0] + 2 * struct.unpack("<I", b[5:9])[0] if n >= 9 else None
        return {4: 1, 25: 1, 254: 3, 13: 3, 15: 5, 20: 5}.get(t, 0)

    def feed(s, data):
        s.b += data
        out = []
        while s.b:
            n = s.need()
            if n == 0:
                out.append(None)
                s.b = b""
                break
            if n is None or len(s.b) < n:
                break
            out.append(s.b[:n])
            s.b = s.b[n:]
            s.first = False
        return out


def ptag(b, start):
    t, m = struct.unpack("<qI", b[:12])
    if t == I64MAX:
        return [INF, 0]
    if t == I64MIN:
        return [-1, 0]
    return [max(-INF, min(INF - 1, t - start)), min(m, 1000000000)]


def rti_events(evs, rti_node, real=False):
    """The history of the RTI's connections.  Returns (events, number of connections, start).
    real: of real federates, which the RTI waits for when they resign, until they close the connection."""
    closing = set()
    out, st, fed, start = [], {}, {}, None
    conns = 0
    end = None
    for e in evs:
        k = e["e"]
        if k == "conn" and e["to"] == rti_node:
            st[e["c"]] = (Stream(False), Stream(True))
            fed[e["c"]] = 0
            conns = max(conns, e["c"] + 1)
        elif k in ("r", "w") and "c" in e and e["c"] in st and e["s"] == 1:
            c = e["c"]
            for m in st[c][0 if k == "r" else 1].feed(bytes.fromhex(e["d"])):
                r = dict(op="rd" if k == "r" else "wr", c=c, f=fed[c], k="?", t=[0, 0], d=0, x="", a=0)
                if m is None:
                    r["op"] = "garbled"
                    out.append(r)
                    continue
                t = m[0]
                if k == "r" and fed[c] == 0 and not any(o["c"] == c and o["op"] == "rd" for o in out):
                    if t == 1:
                        r.update(k="IDS", a=struct.unpack("<H", m[1:3])[0], x=m[4:].decode("latin1"))
                        fed[c] = 0
                        st[c][0].cand = r["a"] + 1
                    else:
                        r["k"] = {16: "P2PID", 18: "P2PMSG", 100: "NONCE"}.get(t, "OTHER")
                elif t in TAGGED:
                    r.update(k=TAGGED[t], t=ptag(m[1:13], start or 0))
                elif t == 5 or t == 23:
                    r.update(k="MSG" if t == 5 else "ABS", d=struct.unpack("<H", m[3:5])[0] + 1, t=ptag(m[9:21] if t == 5 else m[5:17], start or 0),
                             x=hashlib.md5(m).hexdigest()[:16])
                elif t == 2:
                    v = struct.unpack("<q", m[1:9])[0]
                    if k == "w":
                        start = v
                    r.update(k="TIME", t=[v // 10**9, v % 10**9])
                elif t == 14:
                    r.update(k="ADDR", a=struct.unpack("<i", m[1:5])[0])
                elif t == 13:
                    r.update(k="QUERY", a=struct.unpack("<H", m[1:3])[0])
                elif t == 15:
                    r.update(k="ADV", a=struct.unpack("<i", m[1:5])[0])
                else:
                    r["k"] = {255: "ACK", 0: "REJECT", 19: "T1", 21: "T4", 20: "T3", 24: "NBR", 254: "UDP", 4: "RESIGN", 25: "FAILED"}.get(t, "?")
                    if t in (4, 25) and real:
                        closing.add(c)
                    if t == 0:
                        r["a"] = m[1]
                    if t == 255:
                        fed[c] = st[c][0].cand
                        r["f"] = fed[c]
                out.append(r)
        elif k == "shut" and e["c"] in st and e["s"] == 1:
            out.append(dict(op="shut", c=e["c"], f=fed[e["c"]], k="", t=[0, 0], d=0, x="", a=0))
        elif k == "quiet":
            # Not while a message is being read or written: the RTI holds its mutex meanwhile.
            if out and out[-1]["op"] != "quiet" and not closing and not any(x.b for p in st.values() for x in p):
                out.append(dict(op="quiet", c=0, f=0, k="", t=[0, 0], d=0, x="", a=0))
        elif k == "eof" and e["c"] in st and e["s"] == 1:
            closing.discard(e["c"])
        elif k == "exit" and e["node"] == rti_node:
            out.append(dict(op="exit", c=0, f=0, k="", t=[0, 0], d=0, x="", a=e["code"]))
        elif k in ("deadlock", "livelock", "runaway", "crash", "assert", "died", "misuse", "rc", "notstart", "nojoin", "gone", "fatal", "overflow"):
            if end is None:
                end = k
    if end and not (out and out[-1]["op"] == "exit" and end == "gone"):
        out.append(dict(op="stuck", c=0, f=0, k=end, t=[0, 0], d=0, x="", a=0))
    return out, conns, start


def gen_fed(rng, n=None, zdc=0.5, stops=0.3, resigns=0.15, fails=0.0, bad=0.0, query=0, maxt=40, physical=0.2):
    F = Fedn()
    F.fid = rng.choice(["fed", "fed", "a", "federation/%d" % rng.randrange(1000), "x" * 40])
    F.n = n or rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
    D = [1, 2, 5, 10] if rng.random() < 0.5 else [5, 10]
    pairs = [(a, b) for a in range(F.n) for b in range(F.n) if a != b]
    rng.shuffle(pairs)
    k = rng.randint(min(1, len(pairs)), min(len(pairs), F.n + 2))
    z = rng.random() < zdc
    for j, (a, b) in enumerate(pairs[:k]):
        d = -1 if rng.random() < (0.6 if z else 0.35) else rng.choice([0, 0] + D)
        if d == -1 and not z and reach([l for l in F.links if l[2] == -1], b, a):
            d = rng.choice([0] + D)
        F.links.append((a, b, d, rng.randint(0, 5), rng.randint(0, 1)))
    # No zero-delay connection from one zero-delay cycle to another (see DESIGN.md).
    zc = zero_cycle(F.links)
    F.links = [(a, b, rng.choice([0, 5]) if d == -1 and a in zc and b in zc and not reach([l for l in F.links if l[2] == -1], b, a) else d, o, e)
               for a, b, d, o, e in F.links]
    # Every output of a federate has its own order, and dependent outputs follow the inputs.
    T = rng.choice([10, 20, maxt])
    F.stop = (T, rng.choice([0, 0, 0, 1]))
    times = sorted(rng.sample(range(1, T + 1), min(T, rng.randint(2, 7))))
    for i in range(F.n):
        for _ in range(rng.randint(0, 6)):
            F.evs.append((i, rng.choice(times), rng.choice([0, 0, 0, 0, 1, 2])))
        F.join[i] = rng.choice([0, 0, rng.randrange(2000)])
        if rng.random() < physical and not any(l[1] == i for l in F.links):
            F.hb.append(i)
        if rng.random() < stops:
            F.plans.append((i, "s", rng.randint(0, 5)))
        elif i in zero_cycle(F.links):
            pass  # The others in the cycle would wait for it.
        elif rng.random() < resigns:
            F.plans.append((i, "r", rng.randint(0, 5)))
        elif rng.random() < fails:
            F.plans.append((i, "f", rng.randint(0, 5)))
    F.opt.update(slow=rng.choice([0, 10, 30, 60]), pmsg=rng.choice([30, 60, 90]), pabs=rng.choice([0, 50, 100]), big=rng.choice([0, 10, 50]), query=query)
    if rng.random() < 0.2:
        F.opt["port"] = rng.choice([15045, 16000])
    if rng.random() < bad:
        for _ in range(rng.randint(1, 3)):
            k = rng.choice("fpledowdunledpchg")
            # A client that is not part of the federation never comes with a free place in it.
            i = rng.randrange(F.n) if k == "d" else rng.choice([F.n, F.n + 3, 65535]) if k == "o" else rng.choice([0, 1, F.n, F.n + 3, 65535])
            F.bad.append((k, i, rng.choice([0, 500, 3000, 2000000])))
    return F


def zero_cycle(links):
    z = [l for l in links if l[2] == -1]
    return {l[0] for l in z if reach(z, l[1], l[0])}


def reach(links, a, b):
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for l in links:
            if l[0] == x and l[1] not in seen:
                seen.add(l[1])
                todo.append(l[1])
    return b in seen


def record(F, conns):
    return dict(n=F.n, fid=F.fid, conns=max(1, conns), lk=[dict(f=a + 1, t=b + 1, d=d) for a, b, d, _, _ in F.links])
