"""Jet pump: whatever the retry loop draws and whichever trials fail, a normal return solves the pump."""
import json
import os
import random
import sys
import warnings

from .. import boot, calls, engine, runner

PROPERTY = "C22"
RUNS = {"quick": 2600, "thorough": 120000}
RULE = ("a run is 1-3 pump specifications (five of the seven variables of a pump made to have a solution, or with one value then moved away from it), "
        "each solved under 2-5 scripted streams of random draws (interval ends, repeats, tiny steps, ordinary), with trial evaluations failing at "
        "scripted places, an interrupt or failed allocation at a point of the call, or two pumps solved by two threads switched at lines; every "
        "return is checked against an independent statement of the equations, and an undisturbed call is repeated last; non-trivial if numbers were drawn or a fault fired")
MEASURE = "distinct (specification, stream, faults, outcome)"
REAL = ["fluids.jet_pump", "the equation system solver of fluids.numerics", "numpy"]
STUBS = ["the random number source", "failures of trial evaluations", "delivery of signals and allocation failures", "thread scheduling"]
ASSUMPTIONS = ["a trial fails by raising, where the pressure ratio of the trial is evaluated"]
TIMEOUT = 120.0
VARS = ["d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5"]
ERRS = {"value": ValueError, "zero": ZeroDivisionError, "over": OverflowError, "mem": engine.NoMemory, "int": engine.Interrupt}
J = None
SRC = {"cur": None}     # task id -> Stream, while a run is under way


class Stream:
    def __init__(self, kind, seed):
        self.kind, self.n = kind, 0
        self.rng = random.Random(seed)
        self.fix = self.rng.random()
        self.few = [self.rng.random() for _ in range(3)]

    def fraction(self):
        self.n += 1
        k = self.kind
        if k == "low":
            return 0.0
        if k == "high":
            return 1.0
        if k == "ends":
            return float(self.n % 2)
        if k == "fixed":
            return self.fix
        if k == "few":
            return self.rng.choice(self.few)
        if k == "tiny":
            return self.n * 2.0 ** -50
        return self.rng.random()


KINDS = ["low", "high", "ends", "fixed", "few", "tiny", "plain", "plain", "plain"]


def fraction():
    d = SRC["cur"]
    if d is None:
        return None
    s = engine.CURRENT
    t = s.me() if s is not None else None
    st = d.get(t.id if t is not None else 0)
    return None if st is None else st.fraction()


def install_draws():
    import numpy.random as npr

    def wrap(mod, name, scaled):
        real = getattr(mod, name)

        def draw(*a, **k):
            f = fraction()
            if f is None:
                return real(*a, **k)
            if scaled:
                lo, hi = (list(a) + [0.0, 1.0][len(a):])[:2]
                return lo + (hi - lo) * f
            return min(f, 1.0 - 2.0 ** -53)
        setattr(mod, name, draw)
    wrap(random, "uniform", True)
    wrap(random, "random", False)
    wrap(npr, "uniform", True)
    wrap(npr, "random", False)


def prepare(tier, seed):
    global J
    os.environ["TZ"] = "UTC"
    if "fluids" in sys.modules:
        raise runner.HarnessError("the library was loaded before it could be instrumented")
    install_draws()
    engine.install_import_guard()
    boot.install_finder()
    import fluids.jet_pump
    import fluids.numerics
    warnings.simplefilter("ignore")
    J = fluids.jet_pump
    real = J.liquid_jet_pump_pressure_ratio

    def trial(*a, **k):
        st = SRC["cur"]
        s = engine.CURRENT
        t = s.me() if s is not None else None
        st = st.get(t.id if t is not None else 0) if st is not None else None
        if st is not None:
            st.trials += 1
            e = st.fails(st.trials)
            if e:
                st.fired.append(e)
                raise ERRS[e]("injected into trial evaluation %d" % st.trials)
        return real(*a, **k)
    J.liquid_jet_pump_pressure_ratio = trial


def watch(on):
    """Line events and interrupt points, wanted only where a run switches threads or cuts a call."""
    engine.monitor([c for c in boot.ALL_CODE if c.co_filename.endswith(("jet_pump.py", "numerics/__init__.py"))], line=on, interrupts=on)


def uni(rng, a, b):
    return a + (b - a) * (rng.random())


# -- the pump, stated independently ------------------------------------------------------
def terms(c, v):
    """(P1-P2 by energy balance, size of its terms, N by the pressure-ratio equation, size of its terms, alpha)"""
    C = c["rhos"] / c["rhop"]
    R = (v["d_nozzle"] / v["d_mixing"]) ** 2
    alpha = (v["d_mixing"] / v["d_diffuser"]) ** 2
    M = v["Qs"] / v["Qp"]
    half = 0.5 * c["rhop"] * (v["Qp"] / (0.7853981633974483 * v["d_nozzle"] ** 2)) ** 2
    third = C * (1.0 + c["Ks"]) * (M * R / (1.0 - R)) ** 2
    dP = half * ((1.0 + c["Kp"]) - third)
    mix = R * R * (1.0 + C * M) * (1.0 + M) * (1.0 + c["Km"] + c["Kd"] + alpha * alpha)
    cm = C * (M * R) ** 2
    num = [2.0 * R, 2.0 * cm / (1.0 - R), -mix, -cm / (1.0 - R) ** 2 * (1.0 + c["Ks"])]
    den = [1.0 + c["Kp"], -2.0 * R, -2.0 * cm / (1.0 - R), mix,
           (1.0 if c["nozzle_retracted"] else 0.0) * cm / (1.0 - R) ** 2 * (1.0 - c["Ks"])]
    N = sum(num) / sum(den)
    sN = sum(map(abs, num)) / abs(sum(den)) + abs(N) * sum(map(abs, den)) / abs(sum(den))
    amp = 1.0 + 1.0 / abs(1.0 - R)
    return dP, half * (1.0 + c["Kp"] + third * amp), N, sN * amp, alpha, R, M


def near(a, b, rel=1e-9):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def wrong(c, given, unknown, dd, sol):
    """What is wrong with a returned solution, or None."""
    if not isinstance(sol, dict):
        return "not a dict of results but %r" % (sol,)
    want = set(VARS) | {"d_diffuser", "N", "M", "R", "alpha", "efficiency"}
    if set(sol) != want:
        return "entries %s" % sorted(set(sol) ^ want)
    for k in sorted(want):
        x = sol[k]
        if not isinstance(x, (int, float)) or x != x or abs(x) == float("inf"):
            return "%s is %r" % (k, x)
    for k, x in given.items():
        if sol[k] != x:
            return "given %s=%r came back as %r" % (k, x, sol[k])
    if dd is not None and sol["d_diffuser"] != dd:
        return "given d_diffuser=%r came back as %r" % (dd, sol["d_diffuser"])
    try:
        dP, sP, N, sN, alpha, R, M = terms(c, sol)
        Np = (sol["P5"] - sol["P2"]) / (sol["P1"] - sol["P5"])
    except ZeroDivisionError:
        return "a degenerate pump %s" % brief(sol)
    for k, x in (("R", R), ("M", M), ("alpha", alpha), ("N", Np), ("efficiency", M * Np)):
        if not near(sol[k], x, 1e-9):
            return "%s=%r, but the returned variables make it %r" % (k, sol[k], x)
    closed = "P5" in unknown
    tol = 1.001e-5 + 1e-12 * (sP + abs(sol["P1"]) + abs(sol["P2"]))
    if closed:
        tol = (1e-4 if "d_nozzle" in unknown or "d_mixing" in unknown else 1e-9) * (sP + abs(sol["P1"]) + abs(sol["P2"]))
    e2 = dP - (sol["P1"] - sol["P2"])
    if not abs(e2) <= tol:
        return "energy balance is off by %.6g Pa (%s)" % (e2, brief(sol))
    pen = 0.0
    if closed:
        e1 = (sol["P5"] - sol["P2"]) - N * (sol["P1"] - sol["P5"])
        tol = 1e-8 * (abs(sol["P5"]) + abs(sol["P2"]) + sN * (abs(sol["P1"]) + abs(sol["P5"])))
    else:
        e1 = N - Np
        amp = (abs(sol["P5"]) + abs(sol["P2"]) + abs(sol["P1"])) / abs(sol["P1"] - sol["P5"])
        tol = 1.001e-5 + 1e-12 * (sN + (1.0 + abs(Np)) * amp)
        if sol["efficiency"] < -1.001e-5:
            return "a pump of negative efficiency (%s)" % brief(sol)
    if not abs(e1) <= tol:
        return "pressure ratio is off by %.6g (%s)" % (e1, brief(sol))
    return None


def brief(sol):
    return ", ".join("%s=%.8g" % (k, sol[k]) for k in VARS)


# -- generation ------------------------------------------------------------------------
def make_spec(rng):
    while True:
        rhop = rng.choice([998.0, 800.0, 1200.0])
        c = {"rhop": rhop, "rhos": rhop * rng.choice([1.0, 1.1, 0.8, 0.5, 0.05]), "Kp": uni(rng, 0, .12), "Ks": uni(rng, 0, .3),
             "Km": uni(rng, .05, .3), "Kd": uni(rng, .05, .2), "nozzle_retracted": rng.random() < 0.5}
        dm = 10.0 ** uni(rng, -2.3, -0.6)
        v = {"d_mixing": dm, "d_nozzle": dm * uni(rng, .2, .85)}
        v["Qp"] = 0.785 * v["d_nozzle"] ** 2 * uni(rng, 2, 40)
        v["Qs"] = v["Qp"] * uni(rng, .05, 2)
        v["P2"] = uni(rng, 2e4, 4e5)
        dd = rng.choice([None, None, dm * uni(rng, 1.1, 4)])
        v["d_diffuser"] = dd if dd is not None else dm * 1e3
        dP, _, N, _, _, _, _ = terms(c, dict(v))
        v["P1"] = v["P2"] + dP
        v["P5"] = (v["P1"] * N + v["P2"]) / (N + 1.0)
        if v["P1"] > 0 and v["P5"] > 0 and dP > 0 and N > 0:
            break
    del v["d_diffuser"]
    unknown = rng.sample(VARS, 2)
    if rng.random() < 0.75 and "P5" in unknown:
        unknown = rng.sample(VARS[:-1], 2)
    given = {k: x for k, x in v.items() if k not in unknown}
    if rng.random() < 0.3:
        k = rng.choice(sorted(given))
        given[k] *= rng.choice([0.5, 0.9, 0.99, 1.01, 1.2, 3.0])
    if rng.random() < 0.1:
        given = {k: float("%.2g" % x) for k, x in given.items()}
    mv = rng.choice([8, 16, 24, 40, 0, 7, 9, 8, 16]) if rng.random() < 0.97 else None
    return {"c": c, "given": given, "unknown": sorted(unknown), "dd": dd, "mv": mv}


def make_try(rng):
    t = {"stream": rng.choice(KINDS), "seed": rng.getrandbits(32), "fail": None, "cut": None}
    r = rng.random()
    if r < 0.45:
        e = rng.choice(["value", "zero", "over", "mem", "mem", "value", "zero", "int"])
        m = rng.choice(["first", "at", "every", "from"])
        t["fail"] = [m, rng.choice([1, 2, 3, 5, 8, 13, 21, 60]) if rng.random() < 0.7 else rng.randint(1, 150), e]
    elif r < 0.65:
        t["cut"] = [rng.choice(["int", "mem"]), int(10 ** uni(rng, 0, 3.7))]
    return t


def generate(rng, idx):
    if idx % 7 == 3:
        n = rng.choice([2, 2, 3])
        pre = []
        a, b = make_spec(rng), make_spec(rng)
        specs = [a if rng.random() < 0.5 else b for _ in range(n)]
        for t in range(n):
            s = 0
            gap = rng.choice([3, 10, 40])
            for _ in range(rng.choice([2, 10, 60])):
                s += 1 + int(rng.expovariate(1.0 / gap))
                pre.append([t, s, rng.choice([x for x in range(n) if x != t])])
        for s in specs:
            s["mv"] = 8
        return {"threads": [[s, {"stream": rng.choice(KINDS), "seed": rng.getrandbits(32), "fail": None, "cut": None}] for s in specs], "preempt": pre, "specs": []}
    specs = [{"spec": make_spec(rng), "tries": [make_try(rng) for _ in range(rng.choice([2, 3, 5]))]} for _ in range(rng.choice([1, 1, 2, 3]))]
    for s in specs:
        if any(t["cut"] for t in s["tries"]):
            s["spec"]["mv"] = rng.choice([8, 9])
    return {"specs": specs, "threads": [], "preempt": []}


# -- execution -----------------------------------------------------------------------
def stream_of(t):
    st = Stream(t["stream"], t["seed"])
    st.trials, st.fired = 0, []
    f = t["fail"]

    def fails(n):
        if f is None:
            return None
        hit = {"first": n <= f[1], "at": n == f[1], "every": n % (f[1] + 1) == 0, "from": n >= f[1]}[f[0]]
        return f[2] if hit else None
    st.fails = fails
    return st


def solve(spec):
    kw = dict(spec["c"])
    kw.update(spec["given"])
    if spec["dd"] is not None:
        kw["d_diffuser"] = spec["dd"]
    if spec["mv"] is not None:
        kw["max_variations"] = spec["mv"]
    try:
        return ("V", J.liquid_jet_pump(**kw))
    except BaseException as e:
        if isinstance(e, engine.SimAbort):
            raise
        return ("E", e)


def run_try(spec, t, cutting=True):
    st = stream_of(t)
    cut = t["cut"] if cutting else None
    watch(bool(cut))
    sim = engine.Sim((), [[0, cut[1], cut[0]]] if cut else (), max_steps=20_000_000)
    box = []
    sim.spawn(lambda: box.append(solve(spec)))
    SRC["cur"] = {0: st}
    try:
        sim.run()
    finally:
        SRC["cur"] = None
    return (box[0] if box else ("none", None)), st, list(sim.tasks[0].injected), sim


def judge(spec, t, out, st, injected):
    """Violation text or None, for one solved specification."""
    closed = "P5" in spec["unknown"]
    fired = st.fired + [type(e).__name__ for e in injected]
    hard = "int" in st.fired or any(isinstance(e, engine.Interrupt) for e in injected)
    mv = 100 if spec["mv"] is None else spec["mv"]
    where = "unknown %s, draws %s, %s" % ("+".join(spec["unknown"]), t["stream"], ("faults %s" % fired[:4]) if fired else "no fault")
    if st.n > 2 * mv + 8:
        return ["too-many-draws", "%d numbers drawn for max_variations=%d (%s)" % (st.n, mv, where)]
    if out[0] == "none":
        return ["no-progress", "the call did not end (%s)" % where]
    if out[0] == "V":
        if hard:
            return ["swallowed-interrupt", "an interrupt was swallowed (%s)" % where]
        w = wrong(spec["c"], spec["given"], spec["unknown"], spec["dd"], out[1])
        if w:
            return ["not-a-solution", "%s; returned after %d draws (%s)" % (w, st.n, where)]
        return None
    e = out[1]
    if isinstance(e, (engine.Interrupt, engine.NoMemory)) and e in injected:
        return None
    if closed:
        return None                  # nothing is drawn; the single pass may fail in any way
    if isinstance(e, engine.Interrupt) and "int" in st.fired:
        return None
    if hard:
        return ["swallowed-interrupt", "an interrupt became %s: %s (%s)" % (type(e).__name__, str(e)[:80], where)]
    if isinstance(e, ValueError) and "injected" not in str(e):
        return None
    return ["trial-error-escaped", "a failing trial ended the search: %s: %s (%s)" % (type(e).__name__, str(e)[:100], where)]


def canon(out):
    return out[0] + calls.canon(out[1])


def execute(plan):
    viol, key = [], []
    stats = {"solves": 0, "draws": 0, "returns": 0, "exhausted": 0, "thread solves": 0}
    if plan["threads"]:
        n = len(plan["threads"])
        streams = {i: stream_of(t) for i, (_, t) in enumerate(plan["threads"])}
        outs = [("none", None)] * n
        watch(True)
        sim = engine.Sim(plan["preempt"], (), max_steps=20_000_000)

        def body(i):
            def f():
                outs[i] = solve(plan["threads"][i][0])
            return f
        for i in range(n):
            sim.spawn(body(i))
        SRC["cur"] = streams
        try:
            sim.run()
        finally:
            SRC["cur"] = None
        for i, (s, t) in enumerate(plan["threads"]):
            stats["thread solves"] += 1
            stats["draws"] += streams[i].n
            w = judge(s, t, outs[i], streams[i], [])
            if w:
                viol.append([w[0], "thread %d of %d: %s" % (i, n, w[1])])
            alone, _, _, _ = run_try(s, t)
            if canon(alone) != canon(outs[i]) and not w:
                viol.append(["interference", "thread %d of %d with its own draws gives %s, alone %s" % (i, n, text(outs[i]), text(alone))])
        return {"violations": viol[:4], "key": json.dumps([plan["threads"], sim.switches], sort_keys=True), "stats": dict(stats, switches=len(sim.switches)),
                "simtime": 0.0, "nontrivial": bool(sim.switches)}
    calm = {"stream": "plain", "seed": 4, "fail": None, "cut": None}
    befores = []
    for s in plan["specs"]:
        r = runner.fork_call(lambda: canon(run_try(s["spec"], calm)[0]), 60)
        befores.append(r[1] if r[0] == "ok" else None)
    disturbed = False
    kept = []
    for s, before in zip(plan["specs"], befores):
        spec = s["spec"]
        for t in s["tries"]:
            out, st, injected, sim = run_try(spec, t)
            stats["solves"] += 1
            stats["draws"] += st.n
            stats["returns" if out[0] == "V" else "exhausted"] += 1
            for f in st.fired:
                stats["fault:trial-" + f] = stats.get("fault:trial-" + f, 0) + 1
            for e in injected:
                k = "fault:interrupt" if isinstance(e, engine.Interrupt) else "fault:alloc-failure"
                stats[k] = stats.get(k, 0) + 1
            if st.n:
                stats["fault:draws-" + t["stream"]] = stats.get("fault:draws-" + t["stream"], 0) + st.n
            disturbed = disturbed or bool(st.n or st.fired or injected)
            w = judge(spec, t, out, st, injected)
            if w:
                viol.append(w)
            kept.append((out, canon(out)))
            key.append([spec["unknown"], canon(out)[:60], st.n, len(st.fired), st.trials])
        after = canon(run_try(spec, calm)[0])
        if before is not None and after != before:
            viol.append(["left-behind", "the undisturbed call gives %s, before the disturbed ones it gave %s" % (after[:200], before[:200])])
    for out, was in kept:
        if canon(out) != was:
            viol.append(["result-changed", "a result handed out earlier changed from %s to %s" % (was[:150], canon(out)[:150])])
    return {"violations": viol[:4], "key": json.dumps([plan["specs"], key], sort_keys=True), "stats": stats, "simtime": 0.0, "nontrivial": disturbed}


def text(out):
    return "{%s}" % brief(out[1]) if out[0] == "V" else "%s %s" % (type(out[1]).__name__, out[1])


def shrink(plan):
    if plan["threads"]:
        n = len(plan["preempt"])
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                yield dict(plan, preempt=plan["preempt"][:i] + plan["preempt"][i + size:])
            size //= 2
        return
    sp = plan["specs"]
    for i in range(len(sp)):
        if len(sp) > 1:
            yield dict(plan, specs=sp[:i] + sp[i + 1:])
        for j in range(len(sp[i]["tries"])):
            if len(sp[i]["tries"]) > 1:
                yield dict(plan, specs=sp[:i] + [dict(sp[i], tries=sp[i]["tries"][:j] + sp[i]["tries"][j + 1:])] + sp[i + 1:])
        for j, t in enumerate(sp[i]["tries"]):
            if t["fail"] or t["cut"]:
                tr = list(sp[i]["tries"])
                tr[j] = dict(t, fail=None, cut=None)
                yield dict(plan, specs=sp[:i] + [dict(sp[i], tries=tr)] + sp[i + 1:])
            if t["stream"] != "plain":
                tr = list(sp[i]["tries"])
                tr[j] = dict(t, stream="plain")
                yield dict(plan, specs=sp[:i] + [dict(sp[i], tries=tr)] + sp[i + 1:])
