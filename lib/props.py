"""The checks, by property."""
import clocks
import fedchk as real
import rtichk as rti
import runtime as rt
import units

THREADED = ("np", "gedf", "adaptive")
ALL = ("st",) + THREADED


def spread(ctx, quick, thorough, feat, cfgs=ALL, weights=None):
    n = ctx.n(quick, thorough)
    w = weights or {"np": 3, "gedf": 2, "adaptive": 2, "st": 1.5}
    tot = sum(w.get(c, 1) for c in cfgs)
    return [(c, int(n * w.get(c, 1) / tot), feat) for c in cfgs]


def r01(ctx):
    race = dict(maxx=4, asyncs=1.0, physical=0.9, jitter=1.0, spacing=0.2, tokens=0.05, multiport=0, work=0.1)
    rt.check(ctx, "R01", spread(ctx, 3000, 40000, dict(asyncs=0.25, watchdogs=0.05, jitter=0.2)) + spread(ctx, 1500, 30000, race, THREADED))


def r02(ctx):
    rt.check(ctx, "R02", spread(ctx, 4000, 60000, dict(spacing=0.6, physical=0.35, stop=0.1, maxx=5, asyncs=0.3, negative=0.15)))


def r03(ctx):
    rt.check(ctx, "R03", spread(ctx, 4000, 60000, dict(maxx=14, physical=0.05, spacing=0.1, stop=0.03, workers=None, tokens=0.05), THREADED + ("st",)))


def r04(ctx):
    rt.check(ctx, "R04", spread(ctx, 4000, 60000, dict(multiport=0.5, stop=0.05, tokens=0.1, physical=0.1))
             + spread(ctx, 2000, 20000, dict(reactors=(1,), maxx=4, timers=2, multiport=0.1, stop=0.02, tokens=0, physical=0, spacing=0, span=(6, 9))))


def r05(ctx):
    rt.check(ctx, "R05", spread(ctx, 4000, 60000, dict(maxx=6, stop=0.3, timeout=0.5, keep=0.3, zero=0.1, shut=0.9, physical=0.15)))


def r06(ctx):
    rt.check(ctx, "R06", spread(ctx, 4000, 60000, dict(maxx=6, timers=3, physical=0.1, stop=0.05)))


def r07(ctx):
    rt.check(ctx, "R07", spread(ctx, 4000, 60000, dict(deadlines=0.6, work=0.5, chk=0.4, fast=0.15, physical=0.2, asyncs=0.2, jitter=0.1)))


MODAL = tuple("mod_" + c for c in ALL)


def r08(ctx):
    w = {"mod_np": 3, "mod_gedf": 2, "mod_adaptive": 2, "mod_st": 2}
    rt.check(ctx, "R08", spread(ctx, 4000, 60000, dict(modal=True, physical=0.05, tokens=0.15, stop=0.05, nested=0.5, span=(2, 4, 8, 16)), MODAL, w))


def r13(ctx):
    w = {"mod_np": 3, "mod_gedf": 2, "mod_adaptive": 2, "mod_st": 2}
    rt.check(ctx, "R13", spread(ctx, 4000, 60000, dict(modal=True, nested=0.6, physical=0.05, tokens=0.3, stop=0.02, timers=2, maxx=7, keep=0.3, span=(3, 6, 12, 20)), MODAL, w))


def r09(ctx):
    rt.check(ctx, "R09", spread(ctx, 4000, 60000, dict(tokens=0.8, physical=0.1, stop=0.1, spacing=0.4)))


def r10(ctx):
    rt.check(ctx, "R10", spread(ctx, 4000, 60000, dict(watchdogs=1.0, deadlines=0.3, work=0.4, fast=0.0), THREADED))


def r11(ctx):
    rt.check(ctx, "R11", spread(ctx, 4000, 60000, dict(maxx=14, asyncs=0.5, stop=0.2, physical=0.3, fast=0.1), THREADED + ("st",)))


def r12(ctx):
    rt.check(ctx, "R12", spread(ctx, 4000, 60000, dict(stop=0.7, asyncs=0.4, timeout=0.6, maxx=7, jitter=0.1)))


def legal_federations(ctx):
    """All behaviours of small federations that keep to the protocol (spec/MCRTI)."""
    for cfg in ("MCRTI_two", "MCRTI_three") if ctx.quick else ("MCRTI_two", "MCRTI_three", "MCRTI_slow", "MCRTI_all3"):
        ctx.model("MCRTI", cfg, timeout=1500)


def f01(ctx):
    legal_federations(ctx)
    rti.check(ctx, "F01", [(ctx.n(3000, 40000), dict(query=10)), (ctx.n(2000, 40000), dict(zdc=1.0, stops=0.5)), (ctx.n(500, 10000), dict(n=6, fails=0.2))])


def f02(ctx):
    legal_federations(ctx)
    rti.check(ctx, "F02", [(ctx.n(3000, 40000), dict(zdc=0.7)), (ctx.n(1000, 20000), dict(zdc=1.0)), (ctx.n(700, 10000), dict(n=6, resigns=0.4))])


def f03(ctx):
    rti.check(ctx, "F03", [(ctx.n(3500, 50000), dict(query=10)), (ctx.n(1500, 20000), dict(resigns=0.5, fails=0.2, zdc=0.2))])


def f04(ctx):
    rti.check(ctx, "F04", [(ctx.n(5000, 60000), dict(stops=0.6, resigns=0.3, fails=0.1)), (ctx.n(500, 10000), dict(n=6, stops=0.3))])


def f05(ctx):
    rti.check(ctx, "F05", [(ctx.n(5000, 60000), dict(bad=0.7, query=60, fails=0.1)), (ctx.n(1000, 10000), dict(n=1, bad=0.7, query=60))])


def f06(ctx):
    real.check(ctx, "F06", [("fedc", ctx.n(900, 20000), {}), ("fedc", ctx.n(500, 10000), dict(zdc=1.0, delays=[0, 1000000])), ("fedc", ctx.n(400, 10000), dict(zdc=1.0, delays=[1000000], n=2, dense=4, maxx=5, stop=0.05)),
                            ("fedc", ctx.n(300, 10000), dict(stop=0.6)), ("fedc", ctx.n(200, 5000), dict(physact=1.0, zdc=0.2)),
                            ("fedc", ctx.n(1000, 15000), dict(stop=0.05, busy=0.9, maxx=1, n=2, zdc=0.1))])


def f07(ctx):
    real.check(ctx, "F07", [("fedc", ctx.n(1200, 25000), {}), ("fedc", ctx.n(500, 10000), dict(zdc=1.0, delays=[0, 1000000])), ("fedc", ctx.n(400, 10000), dict(zdc=1.0, delays=[1000000], n=2, dense=4, maxx=5, stop=0.05)),
                            ("fedc", ctx.n(300, 10000), dict(stop=0.6)), ("fedc", ctx.n(200, 5000), dict(physact=1.0, zdc=0.2)),
                            ("fedc", ctx.n(1000, 15000), dict(stop=0.05, busy=0.9, maxx=1, n=2, zdc=0.1))])


def f08(ctx):
    real.check(ctx, "F08", [("fedc", ctx.n(1200, 25000), dict(physlink=0.9)), ("fedc", ctx.n(600, 10000), dict(physlink=0.4, zdc=0.6))])


def f09(ctx):
    real.check(ctx, "F09", [("fedd", ctx.n(1500, 25000), dict(dec=True, stop=0.0, deadlines=0.3, stps=0.6))])


def u01(ctx):
    units.check(ctx, "U01", ctx.n(12000, 200000), units.KINDS, [("gcc-asan", "gcc", ["-g", "-O1", "-fsanitize=address"])])


def u02(ctx):
    units.check(ctx, "U02", ctx.n(4000, 60000), dict(arith=units.gen_arith),
                [("gcc", "gcc", ["-O2"]), ("clang", "clang", ["-O2"])])


def c01(ctx):
    clocks.check(ctx, [("fedcs", ctx.n(400, 6000)), ("fedci", ctx.n(100, 2000))])


PROPS = {k: ("model_checking", f) for k, f in dict(R01=r01, R02=r02, R03=r03, R04=r04, R05=r05, R06=r06, R07=r07, R08=r08, R09=r09, R10=r10, R11=r11, R12=r12, R13=r13,
                                                   F01=f01, F02=f02, F03=f03, F04=f04, F05=f05, F06=f06, F07=f07, F08=f08, F09=f09, U01=u01, U02=u02, C01=c01).items()}
