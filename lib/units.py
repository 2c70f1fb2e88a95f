"""The containers and the tag arithmetic of the runtime, driven by random operations; spec/Units judges the results."""
import glob, json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import build as B
import run

I64MIN, I64MAX, UMAX = -(1 << 63), (1 << 63) - 1, (1 << 32) - 1
UNITS = {"weeks": "weeks", "days": "d", "day": "d", "week": "weeks", "d": "d", "hours": "h", "h": "h", "minutes": "min", "min": "min", "s": "s", "ms": "ms",
         "us": "us", "ns": "ns"}


def build(out, name, cc, flags):
    os.makedirs(out, exist_ok=True)
    r = B.REPO
    inc = ["-I" + os.path.join(r, d) for d in B.INC_DIRS]
    src = [os.path.join(r, f) for f in ("core/tag.c", "core/clock.c", "core/mixed_radix.c", "core/utils/util.c", "core/utils/vector.c")]
    src += sorted(glob.glob(os.path.join(r, "core/utils/pqueue*.c"))) + sorted(glob.glob(os.path.join(r, "core/utils/hashset/*.c")))
    exe = os.path.join(out, name)
    B.run([cc, "-w", "-ffunction-sections", "-fdata-sections", "-DLF_SINGLE_THREADED", "-DPLATFORM_Linux"] + flags + inc + [os.path.join(B.SIM, "units.c")] + src +
          ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", exe])
    return exe


# ------------------------------------------------------------------ encodings
def t32(x):
    """A time in a queue; the ends of the scale stand for themselves."""
    return 2000000000 if x >= 2000000000 else -2000000000 if x <= -2000000000 else x


def m32(x):
    return 1000000000 if x >= UMAX else min(x, 999999999)


def l5(x):
    x += 1 << 63
    return [(x >> (15 * k)) & 32767 for k in range(5)]


def l3(x):
    return [(x >> (15 * k)) & 32767 for k in range(3)]


def small(x):
    return [small(y) for y in x] if isinstance(x, list) else max(-2000000000, min(2000000000, x))


def event(cmd, res):
    """The event of one command, or None if it was not performed."""
    w = cmd.split()
    o, a = w[0], [int(x) for x in w[1:]]
    if res is None:
        return None
    if o in ("new", "flush", "tq", "bq", "hs", "hp", "hi", "vec", "tqfree", "bqfree", "hsfree", "hpfree", "hifree", "vecfree", "vvote"):
        return None
    if o.startswith("tq"):
        if o == "tqins":
            a = [a[0], t32(a[1]), m32(a[2])]
        elif len(a) == 2:
            a = [t32(a[0]), m32(a[1])]
        return dict(op=o, a=a, r=[small(res[0]), t32(res[1]), m32(res[2])] if isinstance(res, list) else small(res))
    if o == "mr":
        n = a[0]
        return dict(op=o, a=[a[1:1 + n], a[1 + n:1 + 2 * n], a[1 + 2 * n:1 + 3 * n], a[1 + 3 * n]], r=small(res))
    if o == "tadd":
        return dict(op=o, a=[l5(a[0]), l5(a[1])], r=[l5(res[0]), l3(res[1])])
    if o in ("gadd", "gcmp"):
        return dict(op=o, a=[l5(a[0]), l3(a[1]), l5(a[2]), l3(a[3])], r=small(res) if o == "gcmp" else [l5(res[0]), l3(res[1])])
    if o in ("gdel", "gstr"):
        return dict(op=o, a=[l5(a[0]), l3(a[1]), l5(a[2])], r=[l5(res[0]), l3(res[1])])
    if o in ("read", "comma"):
        n, txt = res
        ok = int(n == len(txt))
        c = []
        num = r"\d{1,3}(?:,\d{3})*"
        if o == "comma":
            if re.fullmatch(num, txt):
                c = [int(x) for x in txt.replace(",", "")]
            else:
                ok = 0
        elif txt == "0":
            c = [dict(n=[0], u="ns")]
        else:
            for part in txt.split(", "):
                m = re.fullmatch(r"(%s) ([a-z]+)" % num, part)
                if not m or m.group(2) not in UNITS:
                    ok = 0
                    break
                c.append(dict(n=[int(x) for x in m.group(1).replace(",", "")], u=UNITS[m.group(2)]))
        return dict(op=o, a=[l5(a[0])], r=0, ok=ok, c=c if ok else [])
    return dict(op=o, a=a, r=small(res))


# ------------------------------------------------------------------ histories
def gen_tq(rng):
    dyn = rng.random() < .4
    out = ["tq %d" % rng.choice([1, 2, 5, 20])]
    T = [0, 0, 1, 2, 3] if rng.random() < .5 else list(range(rng.choice([5, 20, 100])))
    if rng.random() < .3:
        T += [I64MIN, I64MAX, 1 << 40 & 0 or 1999999999]
    M = [0] if rng.random() < .3 else [0, 1] if rng.random() < .5 else [0, 1, 2, 3]
    ids = list(range(1, rng.choice([4, 12, 60])))
    grow = rng.choice([1, 2, 4])
    for _ in range(rng.choice([10, 40, 120])):
        t, m = rng.choice(T), rng.choice(M)
        if t == I64MAX:
            m = rng.choice([0, UMAX - 1, UMAX]) if rng.random() < .5 else m
        k = rng.random()
        if k < .15 * grow:
            out.append(("tqinstag %d %d" if rng.random() < .6 else "tqinsnm %d %d") % (t, m) if dyn else "tqins %d %d %d" % (rng.choice(ids), t, m))
        else:
            c = ["tqfind %d %d" % (t, m), "tqfindeq %d %d" % (t, m), "tqpeek", "tqpeektag", "tqpop", "tqsize"]
            if rng.random() < .25:
                c.append("tqupto %d %d" % (t, m))
            c.append("tqpoptag" if dyn else "tqrm %d" % rng.choice(ids))
            out.append(rng.choice(c))
    if rng.random() < .5:
        out += ["tqsize"] + ["tqpop"] * 12
    if dyn:
        out += ["tqpoptag"] * 5
    out.append("tqfree")
    return out


def gen_bq(rng):
    out = ["bq %d" % rng.choice([1, 2, 10])]
    P = list(range(rng.choice([2, 6, 50])))
    K = list(range(1, rng.choice([3, 8])))
    ids = list(range(1, rng.choice([4, 12, 80])))
    grow = rng.choice([1, 2, 4])
    for _ in range(rng.choice([10, 40, 120])):
        q = 1 if rng.random() < .8 else 2
        k = rng.random()
        if k < .15 * grow:
            out.append("bqins %d %d %d %d" % (q, rng.choice(ids), rng.choice(P), rng.choice(K)))
        elif k < .97:
            out.append(rng.choice(["bqpop %d" % q, "bqpeek %d" % q, "bqrm %d %d" % (q, rng.choice(ids)), "bqsame %d %d" % (q, rng.choice(P)),
                                   "bqeq %d %d %d" % (q, rng.choice(P), rng.choice(K)), "bqsize %d" % q, "bqvalid %d" % q]))
        else:
            out.append("bqinto %d" % q)
    out += ["bqsize 1", "bqsize 2"] + ["bqpop 1"] * 10 + ["bqfree"]
    return out


def gen_hs(rng):
    out = ["hs %d" % rng.choice([1, 2, 3, 4, 6])]
    step = rng.choice([1, 8, 64, 73, 4096])
    ids = [2 + step * k for k in range(rng.choice([4, 12, 60, 200]))]
    grow = rng.choice([1, 2, 4])
    for _ in range(rng.choice([20, 60, 200])):
        x = rng.choice(ids)
        k = rng.random()
        if k < .15 * grow:
            out.append("hsadd %d" % (rng.choice([0, 1]) if rng.random() < .03 else x))
        else:
            out.append(rng.choice(["hsrm %d" % x, "hsrm %d" % x, "hshas %d" % x, "hshas %d" % x, "hsnum", "hsit %d" % rng.choice([0, 0, 0, 2, 3])]))
    out += ["hsit 0"] + ["hshas %d" % x for x in ids[:20]] + ["hsfree"]
    return out


def gen_hm(rng):
    o = rng.choice(["hp", "hi"])
    n = rng.choice([1, 2, 5, 10, 40])
    cap = rng.choice([n, n + 1, 2 * n, 4 * n])
    out = ["%s %d" % (o, cap)]
    if o == "hp":
        step = rng.choice([1, 8, 16])
        keys = [step * k + rng.choice([0, 1 << 10]) % 4000 for k in range(n)]
        keys = sorted(set(x % 4096 for x in keys))
    else:
        step = rng.choice([1, cap, 2 * cap, 7])
        keys = sorted(set(step * k + rng.choice([0, 0, 1]) for k in range(n)))
    rng.shuffle(keys)
    known = []
    for _ in range(rng.choice([10, 40, 100])):
        if not known or (rng.random() < .4):
            k = rng.choice(keys)
            known.append(k)
            out.append("%sput %d %d" % (o, k, rng.randrange(1000)))
        else:
            out.append("%sget %d" % (o, rng.choice(known)))
    out += ["%sget %d" % (o, k) for k in sorted(set(known))] + [o + "free"]
    return out


def gen_vec(rng):
    out = ["vec %d" % rng.choice([1, 2, 3, 8, 30])]
    grow = rng.choice([1, 2, 4])
    far = rng.choice([3, 8, 40])
    for _ in range(rng.choice([10, 40, 120])):
        k = rng.random()
        if k < .15 * grow:
            n = rng.randrange(1, 9)
            out.append("vpush %d" % rng.randrange(1, 1000) if rng.random() < .6 else "vall %d %d" % (n, rng.randrange(1, 900)))
        else:
            out.append(rng.choice(["vpop", "vpop", "vget %d" % rng.randrange(far), "vset %d %d" % (rng.randrange(far), rng.randrange(1, 1000)), "vsize", "vvote", "vvote"]))
    out += ["vsize"] + ["vpop"] * 12 + ["vecfree"]
    return out


def gen_mr(rng):
    out = []
    for _ in range(rng.choice([1, 3])):
        n = rng.randrange(1, 5)
        r = [rng.randrange(1, 5) for _ in range(n)]
        p = list(range(n))
        rng.shuffle(p)
        d = [0] * n if rng.random() < .7 else [rng.randrange(x) for x in r]
        tot = 1
        for x in r:
            tot *= x
        left = tot        # how many increments can be taken is up to the most significant digit
        if any(d):
            w, at = 1, 0
            for j in p:
                at += d[j] * w
                w *= r[j]
            left = tot - at
        out.append("mr %d %s %s %s %d" % (n, " ".join(map(str, d)), " ".join(map(str, r)), " ".join(map(str, p)), left + 2))
    return out


KINDS = dict(tq=gen_tq, bq=gen_bq, hs=gen_hs, hm=gen_hm, vec=gen_vec, mr=gen_mr)


def a_time(rng):
    k = rng.random()
    if k < .2:
        return rng.choice([I64MIN, I64MAX, 0, 1, -1, I64MIN + 1, I64MAX - 1])
    if k < .5:
        return rng.choice([1, -1]) * ((1 << rng.randrange(63)) + rng.randrange(-2, 3))
    if k < .6:
        return rng.choice([I64MAX - rng.randrange(1 << 20), I64MIN + rng.randrange(1 << 20)])
    if k < .8:
        return rng.randrange(-10, 11)
    return rng.randrange(I64MIN, I64MAX + 1) >> rng.choice([0, 1, 2, 20, 40])


def a_step(rng):
    return rng.choice([0, 0, 1, 2, 3, UMAX, UMAX - 1, 1 << 31, rng.randrange(1 << 32)])


def clamp(x):
    return max(I64MIN, min(I64MAX, x))


def gen_arith(rng):
    out = []
    for _ in range(40):
        o = rng.choice(["tadd", "tadd", "gadd", "gcmp", "gdel", "gstr", "read", "comma"])
        t, u, m, n = clamp(a_time(rng)), clamp(a_time(rng)), a_step(rng), a_step(rng)
        if rng.random() < .15:      # results that lie at the ends
            u = clamp(rng.choice([I64MAX, I64MIN, I64MAX - 1, I64MIN + 1]) - t + rng.randrange(-2, 3))
        if o == "tadd":
            out.append("tadd %d %d" % (t, u))
        elif o in ("gadd", "gcmp"):
            if rng.random() < .3 and o == "gcmp":
                u = t
            if rng.random() < .2 and o == "gcmp":
                n = m
            out.append("%s %d %d %d %d" % (o, t, m, u, n))
        elif o in ("gdel", "gstr"):
            if u == 0 and m == UMAX or u == I64MAX and t < 0:
                continue
            out.append("%s %d %d %d" % (o, t, m, u))
        else:
            x = abs(t) if t != I64MIN else 0
            k = rng.random()
            if k < .5:              # around the units
                x = rng.choice([1, 1000, 10**6, 10**9, 60 * 10**9, 3600 * 10**9, 86400 * 10**9, 7 * 86400 * 10**9]) * rng.randrange(0, 1200) + rng.randrange(-2, 3)
                x = max(0, x)
            if o == "read" and rng.random() < .05:
                x = -x
            out.append("%s %d" % (o, x))
    return out


# ------------------------------------------------------------------ running
def perform(exe, hist, slow=False):
    """Runs histories [(id, commands)]; {id: events}."""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77")
    if slow:
        env["UNITS_SLOW"] = "1"
    text = "".join("new\n" + "\n".join(c) + "\n" for _, c in hist)
    died = False
    try:
        r = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=25)
        out, died = r.stdout, r.returncode != 0
    except subprocess.TimeoutExpired as e:
        out, died = e.stdout or b"", True
    lines = out.decode(errors="replace").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    elif lines:
        lines.pop()
    res, at = {}, 0
    for hid, cmds in hist:
        got = lines[at:at + 1 + len(cmds)]
        at += 1 + len(cmds)
        ev = []
        for c, l in zip(cmds, got[1:]):
            try:
                v = json.loads(l)
            except ValueError:
                v = None
                ev.append(dict(op="garbled", a=[c], r=0))
            try:
                e = event(c, v)
            except (TypeError, IndexError, KeyError):
                e = dict(op="garbled", a=[c], r=0)
            if e:
                ev.append(e)
        if len(got) <= len(cmds):       # it did not get to the end of this one
            if not died:
                raise run.Infra("the driver stopped early")
            if not slow:
                res.update(perform(exe, [(hid, cmds)], True))   # the rest is not run: this one is wrong already
                if res[hid][-1]["op"] != "crash":
                    k = [h for h, _ in hist].index(hid)
                    res.update(perform(exe, hist[k + 1:]))
                return res
            ev.append(dict(op="crash", a=[cmds[min(len(got) - 1, len(cmds) - 1)] if got else ""], r=0))
            res[hid] = ev
            return res
        res[hid] = ev or [dict(op="none", a=[], r=0)]
    return res


def check(ctx, pid, n, gens, compilers):
    """gens: {kind: generator}; compilers: (name, compiler, flags)."""
    exes = [(k, build(ctx.bin, "units-" + k, cc, fl)) for k, cc, fl in compilers]
    kinds = sorted(gens)
    size = 4000
    for a in range(0, n, size):
        hist = []
        for i in range(a, min(n, a + size)):
            k = kinds[i % len(kinds)]
            hist.append(("%s-%d" % (k, i), gens[k](ctx.rng(k, i))))
        for name, exe in exes:
            parts = [hist[j::32] for j in range(32)]
            evs = {}
            with ThreadPoolExecutor(max_workers=8) as ex:
                for r in ex.map(lambda p: perform(exe, p) if p else {}, parts):
                    evs.update(r)
            traces = [dict(id=h, ev=evs[h]) for h, _ in hist if h in evs]
            v, g, d = run.validate(traces, ctx.work, "TraceUnits")
            ctx.tlc_count(g, d)
            ctx.traces += len(traces)
            ctx.events += sum(len(t["ev"]) for t in traces)
            ctx.sample(dict(history=traces[0]["id"], events=traces[0]["ev"][:6]))
            cmds = dict(hist)
            for t in traces:
                f, ix = v[t["id"]]
                if f:
                    lines = [json.dumps(e) for e in t["ev"]]
                    ctx.violation(name + "-" + t["id"], "%s (%s): %s at event %d: %s" % (t["id"], name, ", ".join(sorted(f)), ix, lines[ix - 1] if ix else ""),
                                  {"commands.txt": "\n".join(cmds[t["id"]]) + "\n", "history.jsonl": "\n".join(lines) + "\n"})
            if ctx.violations:
                return
