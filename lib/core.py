"""Common frame of all checks: building, collecting coverage, reporting."""
import json, os, random, shutil, sys, tempfile, time
import build as B
import run

V = run.V


class Ctx:
    def __init__(s, pid, tier, seed, level):
        s.pid, s.tier, s.seed, s.level = pid, tier, seed, level
        s.t0 = time.time()
        s.work = tempfile.mkdtemp(prefix="lfv-%s-" % pid)
        s.bin = os.path.join(s.work, "bin")
        s.built = set()
        s.states = s.transitions = s.traces = s.events = s.evals = 0
        s.samples, s.violations, s.notes, s.assumptions = [], [], [], []
        s.distinct = set()
        s.extra = {}
        s.known = known(pid)
        s.rdir = os.path.join(V, "evidence", "replay", pid)
        shutil.rmtree(s.rdir, ignore_errors=True)

    @property
    def quick(s):
        return s.tier == "quick"

    def n(s, quick, thorough):
        return quick if s.quick else thorough

    def rng(s, *k):
        return random.Random("%s/%s/%s" % (s.seed, s.pid, "/".join(map(str, k))))

    def build(s, *names, copies=None):
        todo = [n for n in names if n not in s.built]
        if todo:
            B.build(todo, s.bin, copies=copies, host=not s.built)
            s.built |= set(todo)

    def so(s, name):
        return os.path.join(s.bin, name + ".so")

    def tlc_count(s, gen, dist):
        s.transitions += gen
        s.states += dist

    def model(s, module, cfg, workers=8, args=(), timeout=700, env=None, heap="6g"):
        """Model-checks a specification exhaustively; a failure is an error of the machinery."""
        rc, out = run.tlc(module, cfg, s.work, env=env, workers=workers, args=args, heap=heap, timeout=timeout)
        g, d = run.tlc_stats(out)
        if rc != 0:
            raise run.Infra("model %s/%s: TLC exit %d\n%s" % (module, cfg, rc, out[-3000:]))
        s.tlc_count(g, d)
        s.extra.setdefault("models", []).append("%s: %d states, %d transitions" % (cfg, d, g))
        return out

    def violation(s, name, what, files):
        """files: {name: text}; name identifies the failing case."""
        if s.is_known(what):
            return
        d = os.path.join(s.rdir, name.replace("/", "_"))
        os.makedirs(d, exist_ok=True)
        for f, t in files.items():
            with open(os.path.join(d, f), "w") as fh:
                fh.write(t)
        with open(os.path.join(d, "what.txt"), "w") as fh:
            fh.write(what + "\n")
        s.violations.append((what, os.path.relpath(d, V)))

    def is_known(s, what):
        """A listed finding: its key is everything that is wrong with the history."""
        return any(what == key or ": %s at event" % key in what for key, _ in s.known)

    def sample(s, x):
        if len(s.samples) < 3:
            s.samples.append(x)

    def finish(s):
        cov = dict(states=s.states, transitions=s.transitions, traces_validated_against_impl=s.traces, samples=s.samples or ["(none)"], **s.extra)
        if s.events:
            cov["events"] = s.events
        if s.evals:
            cov["evaluations"] = s.evals
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", s.pid + ".json"), "w") as f:
            json.dump(dict(property=s.pid, tier=s.tier, seed=s.seed, level=s.level, coverage=cov,
                           assumptions=s.assumptions, wall_s=round(time.time() - s.t0, 2), violations=len(s.violations)), f, indent=1)
            f.write("\n")
        for n in sorted(set(s.notes)) + ["KNOWN-FINDING: property=%s %s" % (s.pid, text) for _, text in s.known]:
            print(n)
        for w, p in s.violations[:5]:
            print("  " + w[:600])
        for w, p in s.violations[:1]:
            print("VIOLATION property=%s replay=%s" % (s.pid, p))
        print("%s %s: %d states, %d transitions, %d histories of the implementation, %d violations, %.1f s" %
              (s.pid, s.tier, s.states, s.transitions, s.traces, len(s.violations), time.time() - s.t0))
        return 1 if s.violations else 0

    def cleanup(s):
        shutil.rmtree(s.work, ignore_errors=True)


def known(pid):
    """Entries "property=<id> key=<text in the case> <description>" of the known-findings file."""
    r = []
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("property=%s " % pid) and " key=" in l:
                rest = l.split(" key=", 1)[1]
                key, text = rest.split(" ", 1)
                r.append((key, text))
    return r
