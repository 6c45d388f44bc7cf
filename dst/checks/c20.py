"""Loading on first use: several threads at once, failing and interrupted loads, and plain results afterwards."""
import builtins
import copy
import importlib
import json
import os
import sys
import warnings

from .. import boot, calls, calcsim as K, engine, lazyops, runner, sharedsim

PROPERTY = "C20"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("a run lets 1-4 threads make first uses - of the lazily bound back ends, the optional parts, the vectorised, unit-aware and compiled front ends, or of the package itself in "
        "a process that has not loaded it - under preemption before any line of library code including module bodies, with any import statement of library code failing "
        "and interrupts and failed allocations at any point, then makes further uses without faults; every undisturbed outcome must be that of the operation alone in a "
        "fresh process, plain calls included, and a disturbed one that value or the injected error; non-trivial if a switch or fault was planned")
MEASURE = "distinct (operations, interleaving, faults)"
REAL = ["module loading, lazy attributes and lazy imports of fluids", "fluids.vectorized, fluids.units, fluids.numba", "the interpreter's import system", "numpy, scipy, pint, numba"]
STUBS = ["thread scheduler", "locks of the import system (same code on simulated locks)", "delivery of signals, allocation failures and import errors", "the caller"]
ASSUMPTIONS = ["third-party packages are loaded beforehand: their own loading is not disturbed", "an operation that overlaps a failed load of a whole module in another thread may "
               "see that failure, as the interpreter's import system hands the half-loaded module to it"]
TIMEOUT = 120.0
EXPECT = {}
NORMAL_CORE = ["fluids", "fluids.vectorized"]
FAULTS = {"import": lambda: ImportError("injected import failure"), "os": lambda: OSError(24, "Too many open files (injected)"), "mem": lambda: engine.NoMemory("injected at an import"),
          "int": lambda: engine.Interrupt("injected at an import")}
PLAIN = []
OPTIONAL = ("thefuzz", "pvlib")     # an ImportError of these means that they are not installed


class Data:
    def __init__(self):
        self.imports = 0


def install_import_faults():
    real = builtins.__import__

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        s = engine.CURRENT
        t = s.me() if s is not None else None
        if t is not None and not t.noyield and t.data is not None and type(fromlist) is not list and globals and str(globals.get("__name__", "")).split(".")[0] == "fluids":
            t.data.imports += 1
            k = s.import_faults.get((t.id, t.data.imports))
            if k is not None and not (k == "import" and name.split(".")[0] in OPTIONAL):
                s.inject("import:" + k)
                e = FAULTS[k]()
                t.injected.append(e)
                raise e
        return real(name, globals, locals, fromlist, level)
    builtins.__import__ = imp


def forget():
    """A process that has not loaded the package."""
    for k in list(boot.fluids_modules()):
        del sys.modules[k]


def prepare(tier, seed):
    if "fluids" in sys.modules:
        raise runner.HarnessError("the library was loaded before it could be instrumented")
    engine.install_module_locks()
    engine.install_threading()
    boot.install_finder()
    calls.preload()
    for m in ("pint", "numba", "numba.experimental", "numba.extending", "numpy.polynomial.chebyshev", "mpmath", "difflib", "thefuzz.process"):
        importlib.import_module(m)
    warnings.simplefilter("ignore")
    install_import_faults()
    boot.precompile()
    import fluids
    K.CORPUS = calls.load_corpus(2500, keys=lambda k: not K.skip(k))
    K.KEYS = sorted(K.CORPUS)
    PLAIN[:] = [k for k in K.KEYS if K.module_of(k) not in ("fluids.vectorized", "fluids.units", "fluids.numba")]
    engine.monitor(boot.ALL_CODE, line=True, interrupts=True)
    boot.CODE_HOOKS.append(engine.monitor_new_code)
    names = sorted(lazyops.OPS) + sorted(lazyops.FRONT) + sorted(lazyops.DEEP)
    for n, r in zip(names, runner.pmap(lambda i: alone({"use": names[i]}), range(len(names)), timeout=100)):
        if r[0] != "ok":
            raise runner.HarnessError("%s: %s" % (n, r[1]))
        EXPECT[n] = r[1]


def run_op(op):
    import fluids
    if "use" in op:
        return lazyops.get(op["use"])()
    return calls.Bound(op["call"])()


def alone(op):
    return sharedsim.outcome(lambda o, p: run_op(p), None, op)


def want_of(op, cache):
    if "use" in op:
        return EXPECT[op["use"]]
    return K.expected(op["call"], cache)


def plain(rng):
    r = rng.choice(K.CORPUS[rng.choice(PLAIN)])
    return {"call": {k: v for k, v in r.items() if k != "n"}}


FAMILIES = [["root", "minimize", "minimize_nm", "fsolve", "fsolve_bad", "tank_fsolve", "horiz_toris"], ["curve_fit", "leastsq", "differential_evolution", "psd_fit", "psd_interp", "psd"],
            ["quad", "lazy_quad", "dblquad", "nquad", "horiz_toris", "tank_table"], ["lmder", "lmfit", "wraps", "cached"], ["fuzzy", "fuzzy2", "fuzzy3", "fuzzy_odd", "lambertw"],
            ["cheb", "cheb_roots", "cheb_diff", "cheb_poly", "tank_cheb"], ["nrlmsise", "solar", "distance", "sunrise", "irradiation", "irradiation_pvlib", "submodules"],
            ["attr_vectorized", "star_vectorized", "import_vectorized", "attr_missing", "submodules"]]


def generate(rng, idx):
    r = idx % 100
    kind = "deep" if r in (37,) else "cold" if r % 10 == 3 else "front" if r % 10 == 7 else "ops"
    nt = rng.choice([1, 2, 2, 2, 3, 3, 4])
    tasks = []
    if kind == "ops":
        fam = rng.choice(FAMILIES) if rng.random() < 0.75 else sorted(lazyops.OPS)
        same = rng.choice(fam) if rng.random() < 0.35 else None
        for t in range(nt):
            tasks.append([{"use": same or rng.choice(fam)} for _ in range(rng.choice([1, 1, 2, 3]))])
    elif kind == "cold":
        pool = ["psd", "fuzzy", "attr_vectorized", "nrlmsise", "solar", "tank_table", "submodules", "star_vectorized", "quad", "import_vectorized", "special", "arrays", "drag", "cheb"]
        for t in range(nt):
            tasks.append([{"use": rng.choice(pool)} for _ in range(rng.choice([1, 2]))])
    else:
        f = sorted(lazyops.FRONT) + ["attr_vectorized", "star_vectorized"] if kind == "front" else sorted(lazyops.DEEP)
        tasks.append([{"use": rng.choice(f)} for _ in range(rng.choice([1, 2]))])
        for t in range(nt - 1):
            x = rng.random()
            tasks.append([{"use": rng.choice(f)}] if x < 0.35 and kind == "front" else [plain(rng) for _ in range(rng.choice([1, 3, 8]))])
    flat = [o for t in tasks for o in t if "use" in o]
    after = [rng.choice(flat) for _ in range(2)] + [plain(rng) for _ in range(4)]
    if kind != "ops":
        after += [plain(rng) for _ in range(12)] + flat
    elif rng.random() < 0.5:
        after.append({"use": rng.choice(sorted(lazyops.OPS))})
    plan = {"kind": kind, "tasks": tasks, "preempt": [], "cuts": [], "imports": [], "after": after}
    ln = lengths(plan)
    if nt > 1:
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 4])):
                t = rng.randrange(nt)
                plan["preempt"].append([t, rng.randint(1, max(1, ln[t][0] if rng.random() < 0.7 else min(40, ln[t][0]))), rng.choice([x for x in range(nt) if x != t])])
        else:
            gap = rng.choice([1, 2, 5, 20, 100, 400])
            for t in range(nt):
                s, cap = 0, 300
                if ln[t][0] > cap * gap and rng.random() < 0.5:
                    s = rng.randint(0, ln[t][0] - cap * gap)
                while s < ln[t][0] and cap:
                    s += 1 + (int(rng.expovariate(1.0 / gap)) if gap > 1 else 0)
                    plan["preempt"].append([t, s, rng.choice([x for x in range(nt) if x != t])])
                    cap -= 1
    if rng.random() < 0.55:
        whole = kind != "ops"
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.randrange(nt)
            if rng.random() < 0.5 and ln[t][2]:
                plan["imports"].append([t, rng.randint(1, ln[t][2]), "int" if whole else rng.choice(sorted(FAULTS))])
            elif ln[t][1]:
                n = ln[t][1]
                plan["cuts"].append([t, rng.randint(1, n) if rng.random() < 0.5 else rng.randint(1, min(n, 25)), "int" if whole else rng.choice(["int", "mem"])])
    engine.with_stalls(rng, plan["preempt"])
    return plan


def lengths(plan):
    def f():
        out = []
        log, sim = simulate({"kind": plan["kind"], "tasks": [[o for t in plan["tasks"] for o in t]], "preempt": [], "cuts": [], "imports": [], "after": []})
        for ops in plan["tasks"]:
            out.append([0, 0, 0])
        for (t, j), (a, b, c) in zip([(t, j) for t, ops in enumerate(plan["tasks"]) for j in range(len(ops))], sim.marks):
            out[t] = [out[t][0] + a, out[t][1] + b, out[t][2] + c]
        # any of them may be the one which loads
        big = [max(x[i] for x in out) for i in range(3)]
        return [big if plan["kind"] != "ops" else x for x in out]

    def g():
        out = []
        for ops in plan["tasks"]:
            r = runner.fork_call(lambda: one(ops), 60)
            out.append(r[1] if r[0] == "ok" else [1000, 300, 5])
        return out

    def one(ops):
        log, sim = simulate({"kind": plan["kind"], "tasks": [ops], "preempt": [], "cuts": [], "imports": [], "after": []})
        k = sim.tasks[0]
        return [k.step, k.ipoint, k.data.imports]
    if plan["kind"] == "ops":
        return g()
    r = runner.fork_call(f, 100)
    return r[1] if r[0] == "ok" else [[3000, 1000, 50]] * len(plan["tasks"])


def simulate(plan):
    sim = engine.Sim(plan["preempt"], plan["cuts"], max_steps=6_000_000)
    sim.import_faults = {(a, b): k for a, b, k in plan["imports"]}
    sim.marks = []
    if plan["kind"] == "cold":
        forget()
    log = []

    def body_of(t):
        def body():
            k = sim.tasks[t]
            k.data = Data()
            for j, op in enumerate(plan["tasks"][t]):
                e = {"t": t, "j": j, "op": op, "start": sim.total, "end": None, "out": None, "cut": [], "own": False, "mild": False}
                log.append(e)
                at = (k.step, k.ipoint, k.data.imports)
                try:
                    v = ("V", run_op(op))
                except Exception as x:
                    v = ("E", x)
                except engine.Interrupt as x:
                    v = ("I", x)
                k.noyield += 1
                try:
                    e["end"] = sim.total
                    e["cut"] = [type(x).__name__ for x in k.injected]
                    # an allocation failure absorbed on the way is C10's subject
                    e["mild"] = all("at point" in str(x) and isinstance(x, MemoryError) for x in k.injected)
                    e["own"] = v[0] in "EI" and bool(k.injected) and from_injected(v[1], k.injected)
                    k.injected = []
                    e["out"] = v[0] + calls.canon(v[1])
                    sim.marks.append((k.step - at[0], k.ipoint - at[1], k.data.imports - at[2]))
                finally:
                    k.noyield -= 1
        return body
    for t in range(len(plan["tasks"])):
        sim.spawn(body_of(t))
    sim.run()
    if not (sim.deadlock or sim.over):
        for j, op in enumerate(plan["after"]):
            log.append({"t": -1, "j": j, "op": op, "start": sim.total + 1 + 2 * j, "end": sim.total + 2 + 2 * j, "cut": [], "own": False, "mild": False, "out": alone(op)})
    return log, sim


def fallback(e, want):
    """TANK.h_from_V documents that it goes on without scipy when it cannot use it: the same height, by another method."""
    return e["op"].get("use") == "tank_table" and e["out"].startswith("Vf") and abs(float.fromhex(e["out"][2:]) - float.fromhex(want[2:])) < 1e-6


def from_injected(x, injected):
    seen = set()
    while x is not None and id(x) not in seen:
        if any(x is y for y in injected):
            return True
        seen.add(id(x))
        x = x.__cause__ or x.__context__
    return False


def execute(plan):
    cache, viol = {}, []

    def f():
        log, sim = simulate(plan)
        return [log, sim.switches, sim.fired, sim.deadlock, sim.over]
    r = runner.fork_call(f, 100)
    if r[0] == "err":
        raise runner.HarnessError(r[1])
    log, switches, fired, deadlock, over = r[1] if r[0] == "ok" else ([], [], {}, None, True)
    if deadlock:
        viol.append(["deadlock", "threads %s wait for each other for ever" % deadlock])
    elif over:
        viol.append(["no-progress", "the operations did not finish"])
    else:
        broken = [e for e in log if e["cut"]]
        for e in log:
            if e["out"] is None:
                continue
            want = want_of(e["op"], cache)
            if e["out"] == want or want.startswith("H") or e["cut"] and fallback(e, want):
                continue
            if e["cut"]:
                if e["own"] or e["mild"]:
                    continue
            elif e["out"].startswith(("Eexc AttributeError", "Eexc ImportError", "Eexc ModuleNotFoundError", "Eexc KeyError")) and any(
                    b is not e and b["start"] <= e["end"] and e["start"] <= b["end"] for b in broken):
                continue
            elif plan["kind"] == "cold" and broken and e["t"] >= 0 and e["out"].startswith("Eexc _DeadlockError"):
                continue        # a package that failed to load is loaded again while its modules are being loaded
            who = "thread %d" % e["t"] if e["t"] >= 0 else "afterwards"
            what = e["op"]["use"] if "use" in e["op"] else K.describe(e["op"]["call"])
            viol.append(["first-use", "%s: %s gives %s%s; alone %s" % (who, what, K.brief(e["out"]), " with %s injected" % e["cut"] if e["cut"] else "", K.brief(want))])
    stats = {"operations": len(log), "switches": len(switches), "fault:preemption": len(switches), "kind:" + plan["kind"]: 1}
    for k, n in fired.items():
        k = {"interrupt:int": "fault:interrupt", "interrupt:mem": "fault:alloc-failure"}.get(k, "fault:failed-" + k)
        stats[k] = stats.get(k, 0) + n
    return {"violations": viol[:4], "key": json.dumps([plan["tasks"], switches, plan["cuts"], plan["imports"]]), "stats": stats, "simtime": 0.0,
            "nontrivial": bool(switches or plan["cuts"] or plan["imports"])}


def shrink(plan):
    n = len(plan["imports"])
    for i in range(n):
        p = dict(plan)
        p["imports"] = plan["imports"][:i] + plan["imports"][i + 1:]
        yield p
    for p in sharedsim.shrink(plan):
        if len(p["tasks"]) != len(plan["tasks"]):
            # only without faults of the task taken out
            gone = [i for i in range(len(plan["tasks"])) if p["tasks"] == plan["tasks"][:i] + plan["tasks"][i + 1:]]
            if not gone:
                continue
            p["imports"] = [[a - (a > gone[0]), s, k] for a, s, k in plan["imports"] if a != gone[0]]
        yield p
