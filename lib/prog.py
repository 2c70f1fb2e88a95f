"""Programs: construction, random generation, the text for the table-driven program and the record for the specification."""
import random

MS = 1000000


class Prog:
    def __init__(s):
        s.cfg = {"workers": 1}
        s.R = []      # reactors: dict(nmodes, init, pmode)
        s.M = []      # modes: reactor
        s.T = []      # timers
        s.A = []      # actions
        s.P = []      # ports
        s.G = {}      # groups: sparse capacity
        s.X = []      # reactions
        s.W = []      # watchdogs
        s.ASY = []
        s.extra = []  # further lines
        s.fed = None

    def reactor(s, nmodes=0, init=-1, pmode=-1):
        s.R.append(dict(nmodes=nmodes, init=init, pmode=pmode))
        return len(s.R) - 1

    def mode(s, r):
        s.M.append(r)
        return len(s.M) - 1

    def timer(s, r, off, per, mode=None):
        s.T.append(dict(r=r, off=off, per=per, md=s.R[r]["pmode"] if mode is None else mode))
        return len(s.T) - 1

    def action(s, r, min=0, sp=0, pol=0, phy=0, kind=1, mode=None):
        s.A.append(dict(r=r, min=min, sp=sp, pol=pol, phy=phy, kind=kind, md=s.R[r]["pmode"] if mode is None else mode))
        return len(s.A) - 1

    def port(s, r, kind=1, group=-1, chan=0):
        s.P.append(dict(r=r, kind=kind, group=group, chan=chan))
        return len(s.P) - 1

    def rx(s, r, tr=(), src=(), eff=(), dl=-1, mode=None, ops=(), hops=()):
        s.X.append(dict(r=r, tr=list(tr), src=list(src), eff=list(eff), dl=dl, ops=list(ops), hops=list(hops),
                        md=s.R[r]["pmode"] if mode is None else mode, le=-1))
        return len(s.X) - 1

    def op(s, x, name, *a, lo=0, hi=-1, mod=1, rem=0, h=False):
        (s.X[x]["hops"] if h else s.X[x]["ops"]).append((lo, hi, mod, rem, name, list(a)))

    def watchdog(s, r, min):
        s.W.append(dict(r=r, min=min, md=s.R[r]["pmode"], ops=[]))
        return len(s.W) - 1

    # ---- static analysis, as the compiler does it
    def analyse(s, use_le=True):
        n = len(s.X)
        direct = [set() for _ in range(n)]
        lastin = {}
        writers = {}
        for i, x in enumerate(s.X):
            for p in x["eff"]:
                writers.setdefault(p, []).append(i)
        for i, x in enumerate(s.X):
            if x["r"] in lastin:
                direct[i].add(lastin[x["r"]])
            lastin[x["r"]] = i
            for k, j in x["tr"] + x["src"]:
                if k == "P":
                    for w in writers.get(j, []):
                        assert w < i, "ports are written before they are read"
                        direct[i].add(w)
        s.pred = [set() for _ in range(n)]
        for i in range(n):
            for d in direct[i]:
                s.pred[i] |= {d} | s.pred[d]
        s.level = [0] * n
        for i in range(n):
            s.level[i] = 1 + max([s.level[d] for d in direct[i]], default=-1)
        inf = [x["dl"] if x["dl"] >= 0 else None for x in s.X]
        for i in reversed(range(n)):
            for d in direct[i]:
                if inf[i] is not None and (inf[d] is None or inf[i] < inf[d]):
                    inf[d] = inf[i]
        s.inf = inf
        for i in range(n):
            red = {d for d in direct[i] if not any(d in s.pred[e] for e in direct[i])}
            s.X[i]["le"] = list(red)[0] if use_le and len(red) == 1 else -1

    def text(s):
        L = ["cfg %s %d" % kv for kv in s.cfg.items()]
        for i, r in enumerate(s.R):
            L.append("R %d 0 %d %d %d" % (i, r["nmodes"], r["init"], r["pmode"]))
        for i, m in enumerate(s.M):
            L.append("M %d %d" % (i, m))
        for i, t in enumerate(s.T):
            L.append("T %d %d %d %d %d" % (i, t["r"], t["off"], t["per"], t["md"]))
        for i, a in enumerate(s.A):
            L.append("A %d %d %d %d %d %d %d %d" % (i, a["r"], a["min"], a["sp"], a["pol"], a["phy"], a["kind"], a["md"]))
        for g, c in s.G.items():
            L.append("G %d %d" % (g, c))
        for i, p in enumerate(s.P):
            L.append("P %d %d %d %d %d" % (i, p["r"], p["kind"], p["group"], p["chan"]))
        num = {}
        for i, x in enumerate(s.X):
            num[x["r"]] = num.get(x["r"], 0) + 1
            L.append("X %d %d %d %d %d %d %d %d" % (i, x["r"], num[x["r"]], s.level[i], x["dl"],
                                                   -1 if s.inf[i] is None else s.inf[i], x["md"], x["le"]))
            L += ["TR %d %s %d" % (i, k, j) for k, j in x["tr"]]
            L += ["SRC %d %s %d" % (i, k, j) for k, j in x["src"]]
            L += ["EF %d %d" % (i, p) for p in x["eff"]]
            if x.get("stp"):
                L.append("STP %d" % i)
            for c, ops in (("O", x["ops"]), ("H", x["hops"])):
                for lo, hi, mod, rem, name, a in ops:
                    L.append("%s %d %d %d %d %d %s %s" % (c, i, lo, hi, mod, rem, name, " ".join(str(v) for v in (a + [0] * 4)[:4])))
        for i, w in enumerate(s.W):
            L.append("W %d %d %d %d" % (i, w["r"], w["min"], w["md"]))
            for lo, hi, mod, rem, name, a in w["ops"]:
                L.append("WO %d %d %d %d %d %s %s" % (i, lo, hi, mod, rem, name, " ".join(str(v) for v in (a + [0] * 4)[:4])))
        for a in s.ASY:
            L.append("ASY %d %d %d %d %d" % a)
        return "\n".join(L + s.extra) + "\n"

    def record(s, jit=0, leak=0, wdlag=0):
        def trig(k, j):
            return [i + 1 for i, x in enumerate(s.X) if (k, j) in x["tr"]]

        def read(k, j):
            return [i + 1 for i, x in enumerate(s.X) if (k, j) in x["tr"] or (k, j) in x["src"]]
        modal = [i for i, r in enumerate(s.R) if r["nmodes"] > 0]
        return dict(
            tm=[dict(off=t["off"], per=t["per"], md=t["md"] + 1, rs=trig("T", i)) for i, t in enumerate(s.T)],
            ac=[dict(min=a["min"], sp=a["sp"], pol=a["pol"], phy=a["phy"], md=a["md"] + 1, rs=trig("A", i), rd=read("A", i), dly=-1, staa=0, rp=0, src=0) for i, a in enumerate(s.A)],
            po=[dict(rs=trig("P", i), rd=read("P", i), wr=[k + 1 for k, x in enumerate(s.X) if i in x["eff"]]) for i in range(len(s.P))],
            rx=[dict(md=x["md"] + 1, dl=x["dl"], pr=sorted(p + 1 for p in s.pred[i]), ro=x["r"] + 1, stp=x.get("stp", 0)) for i, x in enumerate(s.X)],
            su=trig("S", 0), sd=trig("D", 0), rz=trig("Z", 0),
            ms=[dict(init=s.R[i]["init"] + 1, par=s.R[i]["pmode"] + 1) for i in modal],
            md=[dict(ms=modal.index(r) + 1) for r in s.M],
            rs=[dict(svmd=(r["pmode"] + 1) if s.cfg.get("svreset") else 0) for r in s.R],
            wd=[dict(min=w["min"], ro=w["r"] + 1) for w in s.W],
            keep=s.cfg.get("keepalive", 0), tmo=s.cfg.get("timeout", -1), fast=s.cfg.get("fast", 0), jit=jit, leak=leak, wdlag=wdlag, fed=0, net=[], lnet=[], sta=0, lax=0, tmo2=[2000000000, 0])


def normalise(p, raw, node=0, net=None):
    """Events of one node, as TraceRuntime expects them; also the list of fatal things that happened in the run.
    net: for a federate, its view of the network (see fedprog)."""
    ev, fatal = [], []
    kinds = {"T": 0}
    over = False
    calls = 0      # of lf_request_stop in progress
    held = []
    port_act = getattr(net, "port_act", {})
    for e in raw:
        k = e["e"]
        if k in ("deadlock", "livelock", "runaway", "crash", "assert", "died", "too_many_threads", "misuse", "rc", "fatal"):
            fatal.append(k + (":" + str(e.get("what")) if k == "misuse" else "") + (":" + str(e.get("code")) if k == "rc" else ""))
            continue
        if net is not None:
            x = net(e)
            if x is False:
                continue
            if x is not None:
                ev.append(x)
                continue
        if e.get("n", 0) != node:
            continue
        if k == "stopcall":
            calls += 1
        elif k == "r":
            ev.append(dict(k="r", x=e["x"] + 1, h=e["h"], t=e["tg"][0], m=e["tg"][1], ph=e["ph"], sv=e["sv"],
                           inp=[[i[0], i[1] + 1] + i[2:] for i in e["in"] if i[0] != "T"], it=[[port_act.get(i[0], 0)] + i[1:] for i in e.get("it", [])]))
        elif k == "x":
            ev.append(dict(k="x", x=e["x"] + 1, ph=e["ph"]))
        elif k == "p":
            ev.append(dict(k="p", p=e["p"] + 1, v=e["v"]))
        elif k == "s":
            st = e["st"] if e["st"][0] >= 0 else [2000000000, 0]
            ev.append(dict(k="s", a=e["a"] + 1, d=e["d"], v=e["v"], p=e["p1"], ret=e["ret"], t=e["tg"][0], m=e["tg"][1], st=st, at=e["p0"]))
            ev += held
            held = []
        elif k == "stop" and net is not None:
            pass     # only a request
        elif k == "stop":
            st = e["st"] if e["st"][0] >= 0 else [2000000000, 0]
            calls -= 1
            ev.append(dict(k="stop", t=e["tg"][0], m=e["tg"][1], st=st, ph=e["ph"], o=calls))
        elif k == "mode":
            ev.append(dict(k="mode", md=e["m"] + 1, how={1: "reset", 2: "hist"}[e["k"]]))
        elif k == "sv":
            ev.append(dict(k="sv", x=e["x"] + 1, j=e["k"] + 1, v=e["v"]))
        elif k == "chk":
            ev.append(dict(k="chk", x=e["x"] + 1, ret=e["ret"], ph=e["ph"]))
        elif k == "mit":
            al = sorted((q["chan"], j) for j, q in enumerate(p.P) if q["group"] == e["g"])
            ev.append(dict(k="mit", ch=e["ch"], all=[j + 1 for _, j in al], ord=1))
        elif k == "wds":
            ev.append(dict(k="wds", w=e["wd"] + 1, d=e["d"], t=e["tg"][0], m=e["tg"][1], ph=e["ph"]))
        elif k in ("wdp", "wdh", "wdx"):
            ev.append(dict(k=k, w=e["wd"] + 1, ph=e["ph"]))
        elif k in ("alloc", "free", "copy"):
            d = dict(k=k, v=e["v"])
            if "ok" in e:
                d["ok"] = e["ok"]
            if "tg" in e:
                d["t"], d["m"] = e["tg"]
            if e.get("c"):
                held.append(d)
            else:
                ev.append(d)
        elif k == "wc":
            ev.append(dict(k="wc", x=e["x"] + 1, of=e["of"], v=e["v"]))
        elif k == "ret":
            ev.append(dict(k="end", ph=e["ph"]))
            if e["rc"] != 0:
                fatal.append("rc=%d" % e["rc"])
        elif k == "exit":
            over = True
            if e.get("code", 0) != 0:
                fatal.append("exitcode:%s" % e.get("code"))
    if over and ev and not fatal:
        ev.append(dict(k="over"))
    return ev, fatal
