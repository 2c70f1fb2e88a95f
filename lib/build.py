"""Builds the simulation host and, from /repo's current working tree, the runtime configurations
(as shared libraries that the host loads)."""
import os, subprocess, sys, shutil, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LFV_REPO", "/repo")
SIM = os.path.join(V, "sim")
INC_DIRS = ["include", "include/core", "include/core/federated", "include/core/federated/network",
            "include/core/modal_models", "include/core/platform", "include/core/threaded",
            "include/core/utils", "include/core/utils/impl", "include/api", "tag/api", "version/api",
            "logging/api", "platform/api", "low_level_platform/api", "trace/api", "trace/api/types",
            "trace/impl/include", "core/federated/RTI", "core/utils/hashset", "core"]
WRAPS = ("exit atexit signal __assert_fail rand nanosleep socket bind listen accept connect write read recv recvfrom "
         "sendto send shutdown close setsockopt getsockopt getsockname getpeername getaddrinfo freeaddrinfo "
         "pthread_join pthread_self pthread_detach pthread_cancel pthread_setaffinity_np pthread_getschedparam "
         "pthread_setschedparam pthread_setschedprio pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock "
         "pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait "
         "pthread_cond_signal pthread_cond_broadcast clock_gettime clock_getres clock_nanosleep usleep sleep "
         "lf_atomic_fetch_add lf_atomic_fetch_add64 lf_atomic_add_fetch lf_atomic_add_fetch64 lf_atomic_bool_compare_and_swap "
         "lf_clock_gettime lf_atomic_bool_compare_and_swap64 lf_atomic_val_compare_and_swap lf_atomic_val_compare_and_swap64").split()
LLP = ["low_level_platform/impl/src/" + f for f in ("lf_linux_support.c", "lf_unix_clock_support.c", "lf_atomic_gcc_clang.c",
                                                     "lf_platform_util.c")]


def c_files(d, exclude=()):
    r = []
    for f in sorted(glob.glob(os.path.join(REPO, d, "*.c"))):
        if os.path.basename(f) not in exclude:
            r.append(os.path.relpath(f, REPO))
    return r


def core_sources(kind):
    s = [f for f in c_files("core") if os.path.basename(f) not in ("reactor.c", "tracepoint.c")]
    s += c_files("core/utils")
    s += c_files("core/utils/hashset") + c_files("lib") + c_files("platform/impl")
    if kind == "single":
        s += ["core/reactor.c"]
    elif kind == "threaded":
        s += c_files("core/threaded")
    return s


FED = ["-include", "fedid.h", '-D_LF_FEDERATE_NAMES_COMMA_SEPARATED="a,b,c,d"', "-DFEDERATED=1", "-DNUMBER_OF_FEDERATES=4", "-DFEDERATE_ID=prog_fed_id",
       "-DNUMBER_OF_WORKERS=4"]
CONFIGS = {}


def config(name, kind, defs, extra=(), own=("prog.c",)):
    CONFIGS[name] = (kind, list(defs), extra, own)


TH = ["-DNUMBER_OF_WORKERS=4"]
MOD = lambda: c_files("core/modal_models")
config("st", "single", ["-DLF_SINGLE_THREADED=1"])
config("np", "threaded", TH)
config("gedf", "threaded", TH + ["-DSCHEDULER=SCHED_GEDF_NP"])
config("adaptive", "threaded", TH + ["-DSCHEDULER=SCHED_ADAPTIVE"])
config("mod_st", "single", ["-DLF_SINGLE_THREADED=1", "-DMODAL_REACTORS=1"], MOD)
config("mod_np", "threaded", TH + ["-DMODAL_REACTORS=1"], MOD)
config("mod_gedf", "threaded", TH + ["-DMODAL_REACTORS=1", "-DSCHEDULER=SCHED_GEDF_NP"], MOD)
config("mod_adaptive", "threaded", TH + ["-DMODAL_REACTORS=1", "-DSCHEDULER=SCHED_ADAPTIVE"], MOD)
FSRC = lambda: c_files("core/federated") + c_files("core/federated/network")
config("fedc", "threaded", FED + ["-DFEDERATED_CENTRALIZED=1", "-DLF_CLOCK_SYNC=1", "-DADVANCE_MESSAGE_INTERVAL=10000000"], FSRC)
config("fedcs", "threaded", FED + ["-DFEDERATED_CENTRALIZED=1", "-DLF_CLOCK_SYNC=3", "-DADVANCE_MESSAGE_INTERVAL=10000000"], FSRC)
config("fedci", "threaded", FED + ["-DFEDERATED_CENTRALIZED=1", "-DLF_CLOCK_SYNC=2", "-DADVANCE_MESSAGE_INTERVAL=10000000"], FSRC)
config("fedd", "threaded", FED + ["-DFEDERATED_DECENTRALIZED=1", "-DLF_CLOCK_SYNC=1"], FSRC)
RSRC = lambda: c_files("core/federated/RTI", ("rti_local.c",)) + ["core/utils/util.c", "core/tag.c", "core/clock.c"] + c_files("core/federated/network") + \
    ["core/utils/pqueue_base.c", "core/utils/pqueue_tag.c", "core/utils/pqueue.c"] + c_files("platform/impl")
config("rti", None, ["-DSTANDALONE_RTI=1", "-DFEDERATED=1", "-Dmain=rti_real_main"], RSRC, ("rti_entry.c",))
config("fakes", "bare", [], (), ("fakefed.c",))
config("encl", "threaded", TH + ["-DLF_ENCLAVES=1"],
       lambda: ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_local.c"])
# libgcc has a __wrap_pthread_create of its own, so pthread_create is renamed instead of wrapped.
CFLAGS = ["-Dpthread_create=sim_pthread_create", "-U_FORTIFY_SOURCE", "-g", "-O1", "-fPIC", "-std=gnu11", "-w", "-fno-strict-aliasing", "-DPLATFORM_Linux",
          "-DINITIAL_EVENT_QUEUE_SIZE=10", "-DINITIAL_REACT_QUEUE_SIZE=10", "-DLOG_LEVEL=" + os.environ.get("LFV_LOG", "1")]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-3000:]))


def build(names, out, copies=None, host=True):
    """Compiles the named configurations into out/<name>.so; copies[name]=k makes name_0.so .. name_{k-1}.so."""
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + SIM] + ["-I" + os.path.join(REPO, d) for d in INC_DIRS]
    wrap = ["-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + w for w in WRAPS]
    jobs, links = [], []
    for name in names:
        kind, defs, extra, own = CONFIGS[name]
        srcs = [os.path.join(REPO, f) for f in (core_sources(kind) if kind and kind != "bare" else []) + list(extra() if callable(extra) else extra) +
                (LLP if kind != "bare" else [])]
        srcs += [os.path.join(SIM, f) for f in list(own) + (["atomics.c"] if kind != "bare" else [])]
        d = os.path.join(out, "obj-" + name)
        os.makedirs(d, exist_ok=True)
        objs = []
        for s in srcs:
            o = os.path.join(d, os.path.relpath(s, "/").replace("/", "_") + ".o")
            objs.append(o)
            df = list(defs)
            if s.startswith(SIM):
                df = [x for x in df if not x.startswith("-Dmain=")]
            jobs.append(["gcc"] + CFLAGS + inc + df + ["-c", s, "-o", o])
        links.append((name, ["gcc", "-shared", "-o", os.path.join(out, name + ".so")] + objs + wrap + ["-lm"], d))
    if host:
        jobs.append(["gcc", "-g", "-O2", "-w", "-I" + SIM, "-rdynamic", os.path.join(SIM, "sim.c"), "-o", os.path.join(out, "simhost"),
                     "-lpthread", "-ldl"])
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(run, jobs))
        list(ex.map(lambda l: run(l[1]), links))
    for name, _, d in links:
        shutil.rmtree(d)
        for i in range((copies or {}).get(name, 0)):
            shutil.copy(os.path.join(out, name + ".so"), os.path.join(out, "%s_%d.so" % (name, i)))
    return out


if __name__ == "__main__":
    if sys.argv[1:] == ["--check"]:
        import tempfile
        d = tempfile.mkdtemp(prefix="lfv-setup-")
        try:
            build(["np"], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    else:
        build(sys.argv[2:] or list(CONFIGS), sys.argv[1])
