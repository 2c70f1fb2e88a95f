"""Runs simulations and checks their histories with TLC."""
import json, os, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
TLA = "/opt/veriftools/tla"
JAR = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
NPROC = 8


class Infra(Exception):
    pass


def batch_text(runs):
    """runs: (id, params dict, [(so, entry, off, ppm, text)])"""
    out = []
    for rid, params, nodes in runs:
        out.append("RUN %s %s\n" % (rid, " ".join("%s=%s" % kv for kv in params.items())))
        for so, entry, off, ppm, text in nodes:
            b = text.encode()
            out.append("NODE %s %s %d %d %d\n%s" % (so, entry, off, ppm, len(b), text))
            if not text.endswith("\n"):
                out.append("\n")
        out.append("GO\n")
    return "".join(out)


def simulate(bindir, runs, work, nproc=NPROC, timeout=600):
    """Returns {id: [events]}."""
    os.makedirs(work, exist_ok=True)
    parts = [runs[i::nproc] for i in range(nproc)]

    def one(i):
        if not parts[i]:
            return {}
        b, o = os.path.join(work, "b%d" % i), os.path.join(work, "o%d" % i)
        with open(b, "w") as f:
            f.write(batch_text(parts[i]))
        env = dict(os.environ, SIM_CPU=str(i))
        try:
            r = subprocess.run([os.path.join(bindir, "simhost"), b, o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise Infra("simulation host timed out")
        if r.returncode != 0:
            raise Infra("simulation host failed: %d" % r.returncode)
        res, cur = {}, None
        with open(o, errors="replace") as f:
            for l in f:
                l = l.strip()
                if not l:
                    continue
                try:
                    e = json.loads(l)
                except ValueError:
                    if cur is not None:
                        res[cur].append({"e": "fatal", "what": "garbled"})
                    continue
                if e["e"] == "run":
                    cur = e["id"]
                    res[cur] = []
                elif e["e"] == "done":
                    cur = None
                elif cur is not None:
                    res[cur].append(e)
        os.unlink(b)
        os.unlink(o)
        return res
    out = {}
    with ThreadPoolExecutor(max_workers=nproc) as ex:
        for r in ex.map(one, range(nproc)):
            out.update(r)
    return out


def tlc(module, cfg, work, env=None, workers=1, args=(), heap="2g", timeout=800):
    """Runs TLC on spec/<module>.tla.  Returns (exit code, output)."""
    d = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 else 4), "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=SPEC, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC timed out on " + module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


VERD = re.compile(r'<< ?"VERDICT", ?"([^"]*)", ?\{([^}]*)\}, ?(\d+) ?>>')


def validate(traces, work, module="TraceRuntime", per=None, nproc=NPROC):
    """traces: list of dict(id, p, ev).  Returns ({id: (set of flags, index)}, transitions, states)."""
    res = {t["id"]: ({"nothing"}, 0) for t in traces if not t["ev"]}     # it did not even start
    traces = [t for t in traces if t["ev"]]
    if not traces:
        return res, 0, 0
    os.makedirs(work, exist_ok=True)
    nb = max(1, min(nproc, (len(traces) + 9) // 10))
    if per:
        nb = max(nb, (len(traces) + per - 1) // per)
    order = sorted(traces, key=lambda t: -len(t["ev"]))
    parts = [order[i::nb] for i in range(nb)]

    def one(k, part=None, again=3):
        part = part or parts[k]
        f = os.path.join(work, "tb%d.json" % k)
        with open(f, "w") as fh:
            json.dump(part, fh)
        rc, out = tlc(module, module + ".cfg", work, {"LFV_BATCH": f})
        os.unlink(f)
        v = {}
        txt = re.sub(r"\s+", " ", out)
        for m in VERD.finditer(txt):
            v[m.group(1)] = (set(x.strip().strip('"') for x in m.group(2).split(",") if x.strip()), int(m.group(3)))
        if rc == 0 and len(v) == len(part):
            return v, tlc_stats(out)
        # A history with values that the specification has no meaning for (say, times beyond its integers).
        m = re.findall(r"^/\\ tr = (\d+)$", out, re.M)
        i = re.findall(r"^/\\ i = (\d+)$", out, re.M)
        if m and i and "OutOfMemory" not in out and "StackOverflow" not in out and re.search(r"Overflow when computing|Attempted to|The first argument of|evaluating|nested expressions", out):
            x = part[int(m[-1]) - 1]
            rest = [t for t in part if t is not x]
            w = {t["id"]: (set(), 0) for t in rest}
            st = tlc_stats(out)
            if rest and again:
                w, st = one(k, rest, again - 1)
            w[x["id"]] = ({"meaningless"}, min(int(i[-1]), len(x["ev"])))
            return w, st
        raise Infra("TLC on %s: exit %d, %d verdicts for %d histories\n%s" % (module, rc, len(v), len(part), "\n".join(l for l in out.splitlines() if "VERDICT" not in l)[-1500:]))
    gen, dist = 0, 0
    with ThreadPoolExecutor(max_workers=nproc) as ex:
        for v, (g, d) in ex.map(one, range(nb)):
            res.update(v)
            gen += g
            dist += d
    return res, gen, dist
