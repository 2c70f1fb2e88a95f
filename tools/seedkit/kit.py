"""Helpers for demonstrations: runs small programs against the runtime in the current directory."""
import os, shutil, sys, tempfile
import build as B
import run as R
from prog import Prog, MS


def runs(cfg, prog, seeds, copies=None, **params):
    """Runs the program once per seed; returns the lists of events."""
    prog.analyse()
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        B.build([cfg], d)
        batch = [("s%d" % s, dict(dict(seed=s, strat=1, sw=40), **params), [(os.path.join(d, cfg + ".so"), "prog_main", 0, 0, prog.text())])
                 for s in seeds]
        out = R.simulate(d, batch, d)
        return [out["s%d" % s] for s in seeds]
    finally:
        shutil.rmtree(d, ignore_errors=True)


FATAL = ("deadlock", "livelock", "runaway", "crash", "assert", "died", "misuse", "fatal")


def fatal(ev):
    """What went fatally wrong in a run."""
    return [e for e in ev if e["e"] in FATAL or (e["e"] in ("rc", "exit") and e.get("code", 0) != 0) or (e["e"] == "ret" and e["rc"] != 0)]


def reactions(ev, x=None):
    """(reaction, tag, handler?, physical time, inputs) in the order of execution."""
    return [(e["x"], tuple(e["tg"]), e["h"], e["ph"], e["in"]) for e in ev if e["e"] == "r" and "x" in e and (x is None or e["x"] == x)]


def tags(ev, x):
    return [r[1] for r in reactions(ev, x)]


def fail(*what):
    print("FAILED:", *what)
    sys.exit(1)


def ok():
    print("ok")
    sys.exit(0)


def fedruns(F, seeds, **params):
    """Runs the RTI with scripted federates; returns the histories (lists of dicts, federates from 1) and the raw events."""
    import fed
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        B.build(["rti", "fakes"], d)
        batch = [("s%d" % s, dict(dict(seed=s, strat=1, sw=40, quiet=1, maxemit=60000), **params),
                  [(os.path.join(d, "rti.so"), "rti_entry", 0, 0, F.rti_args()), (os.path.join(d, "fakes.so"), "fakes_main", 0, 0, F.text())])
                 for s in seeds]
        out = R.simulate(d, batch, d)
        return [(fed.rti_events(out["s%d" % s], 0)[0], out["s%d" % s]) for s in seeds]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def federation(n, links, evs, stop=(20, 0), plans=(), bad=(), fid="fed", join=(), **opt):
    """links: (from, to, delay or -1), federates from 0."""
    import fed
    F = fed.Fedn()
    F.n, F.links, F.evs, F.stop, F.plans, F.bad, F.fid = n, [(l + (k, 1))[:5] for k, l in enumerate(links)], list(evs), stop, list(plans), list(bad), fid
    F.join = dict(join)
    F.opt.update(dict(slow=40, pmsg=100, pabs=100, big=0), **opt)
    return F


def late(ev):
    """Messages sent to a federate at or before a tag that it has been granted."""
    tag, r = {}, []
    for e in ev:
        if e["op"] == "wr" and e["k"] == "TAG":
            tag[e["f"]] = max(tag.get(e["f"], [-1, 0]), e["t"])
        elif e["op"] == "wr" and e["k"] == "MSG" and e["t"] <= tag.get(e["f"], [-1, 0]):
            r.append((e["f"], e["t"], tag[e["f"]]))
    return r


def stuck(ev):
    return [e for e in ev if e["op"] in ("stuck", "garbled")]


class Real:
    """A federation of real federates: .P[f] are their programs."""

    def __init__(s, n, timeout, **cfg):
        import fedprog
        s.F = fedprog.FedProg(n)
        s.P, s.n = s.F.P, n
        s.F.T = timeout
        for p in s.P:
            p.cfg.update(dict(workers=1, timeout=timeout, keepalive=1), **cfg)

    def link(s, a, q, b, d=-1, zdc=False):
        """A connection from port q of federate a to federate b: d < 0: no delay, -2: physical.  Returns the port and the action at b."""
        F, A, C = s.F, s.P[a], s.P[b]
        rr = C.reactor()
        na = C.action(rr, min=0, phy=1 if d == -2 else 0, kind=1)
        pt = C.port(rr, 1)
        pid = F.nin[b]
        F.nin[b] += 1
        x = C.rx(rr, [("A", na)], [], [pt])
        C.op(x, "recv", na, pt)
        C.extra.append("NIN %d %d %d %d %d" % (pid, na, d if d != -2 else -1, a, 1 if zdc else 0))
        C.extra.append("NX %d 1" % x)
        C.netact = getattr(C, "netact", set()) | {na}
        ra = A.reactor()
        sx = A.rx(ra, [("P", q)], [], [])
        A.op(sx, "sendfed", q, pid, b, d)
        ax = -1
        if d == -1:
            F.cross.append(((a, sx), (b, x)))
        if zdc:
            ax = A.rx(ra, [("S", 0)], [("P", q)], [])
            A.op(ax, "sendabs", q, pid, b, d)
            A.extra.append("NX %d 2" % ax)
            F.cross.append(((a, ax), (b, x)))
        F.links.append([a, b, d, len(F.links), sx, ax, q, pid, na])
        return pt, na

    def runs(s, seeds, cfg="fedc", sync=None, clocks=(), **params):
        """For every seed the events of every federate, and the raw events.  sync: the RTI's clock synchronization;
        clocks: (offset, ppm) of each federate."""
        import fedprog
        s.F.finish()
        d = tempfile.mkdtemp(prefix="demo-")
        try:
            B.build(["rti", cfg], d, copies={cfg: s.n})
            batch = [("s%d" % k, dict(dict(seed=k, quiet=1, maxemit=60000, strat=1, sw=40), **params),
                      fedprog.nodes(s.F, d + "/rti.so", [d + "/%s_%d.so" % (cfg, f) for f in range(s.n)])) for k in seeds]
            for b in batch:
                if sync:
                    b[2][0] = b[2][0][:4] + ("-i %s -n %d -c %s" % (s.F.fid, s.n, sync),)
                for f, (off, ppm) in enumerate(clocks):
                    b[2][f + 1] = b[2][f + 1][:2] + (off, ppm) + b[2][f + 1][4:]
            out = R.simulate(d, batch, d)
            return [([[e for e in out["s%d" % k] if e.get("n") == f + 1] for f in range(s.n)], out["s%d" % k]) for k in seeds]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def protocol(s, f, raw):
        import fedprog
        return fedprog.protocol(s.F, f, raw)


def cprog(text, files, *flags):
    """Compiles a C program with sources of the repository and runs it; its exit code and output."""
    import subprocess
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        open(d + "/demo.c", "w").write(text)
        cmd = (["gcc", "-w", "-ffunction-sections", "-fdata-sections", "-DLF_SINGLE_THREADED", "-DPLATFORM_Linux"] + list(flags) +
               ["-I" + os.path.join(B.REPO, x) for x in B.INC_DIRS] + [d + "/demo.c"] + [os.path.join(B.REPO, f) for f in files] +
               ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", d + "/demo"])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return -1, r.stderr
        r = subprocess.run([d + "/demo"], capture_output=True, text=True, timeout=60)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)
