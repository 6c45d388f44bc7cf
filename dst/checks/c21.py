"""The threaded solar position driver against the single-threaded one, on simulated threads."""
import copy
import importlib
import importlib.util
import json
import os
import struct
import sys
import types
import warnings

from .. import boot, calls, calcsim as K, engine, runner, sharedsim

PROPERTY = "C21"
RUNS = {"quick": 1000, "thorough": 60000}
RULE = ("a run lets 1-3 callers compute 0-14 solar positions each with -1 to 20 worker threads, in every output mode, the loop either interpreted with preemption before any of its lines "
        "or compiled with the order of the workers scheduled; the array must be bit for bit that of one thread alone in a fresh process, no entry may be written by two "
        "workers, and the positions must be those of solar_position; non-trivial if a switch happened")
MEASURE = "distinct (inputs, interleaving)"
REAL = ["fluids.optional.spa solar_position_numba and the loop it runs", "fluids.numba", "numba (compiled runs)", "numpy"]
STUBS = ["thread scheduler and threading.Thread", "numba.njit (interpreted runs: the function itself)", "the allocator of the result: fresh memory holds a fixed pattern"]
ASSUMPTIONS = ["workers switch between lines of Python code in interpreted runs; a compiled worker runs as one step"]
TIMEOUT = 100.0
SPA = {}
PATTERN = struct.unpack("<d", b"\x01\xfa\xde\xad\xbe\xef\xf8\x7f")[0]
MODES = [{}, {}, {"sst": True}, {"esd": True}]


def recorder(np, mod):
    """Result arrays whose writes are recorded with the task that makes them."""
    class Rec(np.ndarray):
        def __setitem__(self, key, value):
            s = engine.CURRENT
            t = s.me() if s is not None else None
            if t is not None:
                t.noyield += 1
                a = np.full(self.shape, self.__array_interface__["data"][0], dtype=np.int64)
                for d, st in enumerate(self.strides):
                    a += (np.arange(self.shape[d]) * st).reshape([-1 if x == d else 1 for x in range(self.ndim)])
                for x in np.asarray(a[key]).ravel():
                    s.writes.setdefault(int(x), set()).add(t.id)
                t.noyield -= 1
            np.ndarray.__setitem__(self, key, value)

    class Np:
        def __getattr__(self, n):
            return getattr(np, n)

        def empty(self, shape, dtype=np.float64):
            a = np.full(shape, PATTERN, dtype=dtype)
            return a.view(Rec) if mod == "interpreted" else a
    return Np()


def prepare(tier, seed):
    if "fluids" in sys.modules:
        raise runner.HarnessError("the library was loaded before it could be instrumented")
    engine.install_import_guard()
    engine.install_threading()
    boot.install_finder()
    import numpy as np
    # a compiled worker that writes outside its chunk of the result stops with an error instead of corrupting the process
    os.environ["NUMBA_BOUNDSCHECK"] = "1"
    import numba
    warnings.simplefilter("ignore")
    import fluids
    import fluids.numba as fn
    stub = types.ModuleType("numba")
    stub.njit = lambda *a, **k: a[0] if a and callable(a[0]) else (lambda f: f)
    spec = importlib.util.find_spec("fluids.optional.spa")
    m = importlib.util.module_from_spec(spec)
    m.IS_NUMBA = True
    sys.modules["numba"] = stub
    try:
        spec.loader.exec_module(m)
    finally:
        sys.modules["numba"] = numba
    SPA["interpreted"] = m
    f = fn.solar_position_numba
    f = getattr(f, "py_func", f)
    SPA["compiled"] = types.SimpleNamespace(solar_position_numba=f, globals=f.__globals__)
    # compiled once, before the processes are forked
    for kw in MODES:
        f(np.array([]), 1.0, 2.0, 3.0, 1000.0, 12.0, 67.0, 0.5667, 1, **kw)
    m.np = recorder(np, "interpreted")
    f.__globals__["np"] = recorder(np, "compiled")
    engine.monitor(boot.ALL_CODE, line=True, interrupts=False)


def arguments(c):
    import numpy as np
    u = np.array(c["times"], dtype=c["dtype"])
    if c["view"] == "reversed":
        u = u[::-1]
    elif c["view"] == "strided":
        u = np.repeat(u, 2)[::2]
    elif c["view"] == "column":
        u = np.stack([u, u + 1], axis=1)[:, 0]
    return u, [u] + list(c["where"])


def compute(c, threads):
    u, a = arguments(c)
    before = u.tobytes()
    r = SPA[c["how"]].solar_position_numba(*a, threads, **c["mode"])
    if u.tobytes() != before:
        raise AssertionError("the times passed in were modified")
    return r


def text(r):
    import numpy as np
    return "V" + calls.canon(np.array(r).tolist())


def outcome(c, threads):
    try:
        return text(compute(c, threads))
    except Exception as e:
        return "E" + calls.canon(e)


def generate(rng, idx):
    callers = []
    how = "compiled" if idx % 7 == 3 else "interpreted"
    shared = None
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 14]) if how == "interpreted" else rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 100])
        t0, dt = rng.choice([0.0, 1.5e9, -3e8, 1e9 * rng.random()]), rng.choice([1.0, 60.0, 3600.0, 86400.0, 0.0, 12345.678])
        times = [t0 + dt * i for i in range(n)]
        if rng.random() < 0.3:
            rng.shuffle(times)
        dtype = rng.choice(["float64", "float64", "int64", "float32"])
        c = {"how": how, "times": [float(int(x)) if dtype == "int64" else x for x in times], "dtype": dtype, "view": rng.choice(["plain", "plain", "reversed", "strided", "column"]),
             "where": [round(rng.uniform(-90, 90), 2), round(rng.uniform(-180, 180), 2), rng.choice([0.0, 1500.0]), 1013.25, 12.0, 67.0, 0.5667],
             "threads": rng.choice([-1, 0, 1, 2, 2, 3, 4, 5, 8, 20, n, n + 1, max(1, n - 1)]), "mode": rng.choice(MODES)}
        if shared is not None and rng.random() < 0.4:
            c = dict(c, times=shared["times"], dtype=shared["dtype"])
        shared = c
        callers.append(c)
    plan = {"callers": callers, "preempt": []}
    r = runner.fork_call(lambda: [k.step for k in simulate(plan)[1].tasks], 60)
    steps = r[1] if r[0] == "ok" else [2000] * 30
    nt = len(steps)
    x = rng.random()
    if nt > 1 and x < 0.6:
        for _ in range(rng.choice([1, 2, 3, 6, 12])):
            t = rng.randrange(nt)
            plan["preempt"].append([t, rng.randint(1, max(1, steps[t])), rng.randrange(nt)])
    elif nt > 1:
        gap = rng.choice([1, 3, 10, 50, 200])
        for t in range(nt):
            s, cap = 0, 120
            if steps[t] > cap * gap:
                s = rng.randint(0, steps[t] - cap * gap)
            while s < steps[t] and cap:
                s += 1 + (int(rng.expovariate(1.0 / gap)) if gap > 1 else 0)
                plan["preempt"].append([t, s, rng.randrange(nt)])
                cap -= 1
    engine.with_stalls(rng, plan["preempt"], 0.35)
    return plan


def simulate(plan):
    sim = engine.Sim([p for p in plan["preempt"] if p[0] != p[2]], max_steps=4_000_000)
    sim.writes = {}
    got = [None] * len(plan["callers"])
    keep = []

    def body_of(i, c):
        def body():
            try:
                r = compute(c, c["threads"])
                keep.append(r)
                sim.me().noyield += 1
                got[i] = text(r)
                sim.me().noyield -= 1
            except Exception as e:
                got[i] = "E" + calls.canon(e)
        return body
    for i, c in enumerate(plan["callers"]):
        sim.spawn(body_of(i, c))
    sim.run()
    return got, sim


def execute(plan):
    viol = []

    def f():
        got, sim = simulate(plan)
        return [got, sim.switches, sim.deadlock, sim.over, sorted(sorted(v) for v in sim.writes.values() if len(v) > 1)[:3], len(sim.tasks), len(sim.writes), sim.stalled]
    r = runner.fork_call(f, 90)
    if r[0] == "err":
        raise runner.HarnessError(r[1])
    if r[0] != "ok":
        return {"violations": [["no-progress", "the computation did not end"]], "key": json.dumps(plan), "stats": {}, "simtime": 0.0, "nontrivial": True}
    got, switches, deadlock, over, twice, ntasks, writes, stalled = r[1]
    if deadlock:
        viol.append(["deadlock", "threads %s wait for each other for ever" % deadlock])
    elif over:
        viol.append(["no-progress", "the computation did not end"])
    else:
        for i, c in enumerate(plan["callers"]):
            w = runner.fork_call(lambda: outcome(c, 1), 60)
            want = w[1] if w[0] == "ok" else "H" + w[0]
            if got[i] != want and not want.startswith("H"):
                viol.append(["threads", "caller %d, %d times, %s threads, %s, %s: %s; one thread alone: %s" % (i, len(c["times"]), c["threads"], c["mode"] or "positions", c["how"],
                                                                                                    K.brief(str(got[i])), K.brief(want))])
            elif c["how"] == "interpreted" and want.startswith("V"):
                t = runner.fork_call(lambda: against_single(c), 60)
                if t[0] == "ok" and t[1]:
                    viol.append(["positions", "caller %d: %s" % (i, t[1])])
        if twice:
            viol.append(["two-writers", "entries of the result were written by threads %s" % twice])
    return {"violations": viol[:4], "key": json.dumps([plan["callers"], switches]), "stats": {"callers": len(got), "workers": ntasks - len(got), "switches": len(switches),
            "fault:preemption": len(switches), "fault:stall": stalled, "recorded-writes": writes}, "simtime": 0.0, "nontrivial": bool(switches)}


def against_single(c):
    """The array of one thread against the function for single moments."""
    import numpy as np
    r = compute(c, 1)
    u, a = arguments(c)
    m = SPA["interpreted"]
    for i, t in enumerate(u.astype(np.float64)):
        if c["mode"].get("esd"):
            w = [m.earthsun_distance(t, a[6])]
        else:
            w = m.solar_position(t, *a[1:], **c["mode"])
        for j, x in enumerate(w):
            if not abs(float(r[j, i]) - float(x)) <= 1e-9 * max(1.0, abs(float(x))):
                return "entry [%d, %d] is %r, solar_position gives %r" % (j, i, float(r[j, i]), float(x))
        if r.shape != (len(w), len(u)):
            return "the result has shape %s for %d times and %d quantities" % (r.shape, len(u), len(w))
    return None


def shrink(plan):
    n = len(plan["preempt"])
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield dict(plan, preempt=plan["preempt"][:i] + plan["preempt"][i + size:])
        size //= 2
    for i in range(len(plan["callers"])):
        if len(plan["callers"]) > 1:
            yield {"callers": plan["callers"][:i] + plan["callers"][i + 1:], "preempt": plan["preempt"]}
        c = plan["callers"][i]
        for q in ({"times": c["times"][:-1]}, {"times": c["times"][1:]}, {"threads": c["threads"] - 1}, {"view": "plain"}):
            if (("times" not in q) or c["times"]) and ("threads" not in q or c["threads"] > 2) and q != {"view": c["view"]}:
                d = copy.deepcopy(plan)
                d["callers"][i].update(q)
                yield d
