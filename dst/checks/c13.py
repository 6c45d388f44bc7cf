"""An interrupt at any moment of a library call ends it by reaching the caller."""
import json

from .. import boot, callbacks, calcsim as K, calls, climateops, engine, runner
from . import c19

PROPERTY = "C13"
RUNS = {"quick": 14000, "thorough": 200000}
RULE = ("a run takes 1-3 library calls; each is executed with an interrupt at 2-12 different moments (function entry, return from a C call, loop "
        "iteration - where CPython delivers signals - or inside the user's function at a given evaluation); the very interrupt must be what the "
        "caller catches, promptly; non-trivial if an interrupt fired")
MEASURE = "distinct (call, moment)"
REAL = ["every library function called, whole package", "unit-aware calls and objects", "weather station table, downloads, geocoding with sqlite"]
STUBS = ["archive and geocoding services", "signal delivery (raised at the points where CPython checks for signals in library code)"]
ASSUMPTIONS = ["interrupts inside third-party code are represented by their arrival on return from it or inside user callbacks"]
TIMEOUT = 120.0
PROMPT = 3000


def prepare(tier, seed):
    climateops.before_loading()
    import pandas, io        # noqa: E401
    pandas.read_csv(io.StringIO("a,b\n1,2\n")).to_csv(io.StringIO())
    c19.prepare(tier, seed, 60000, ("fluids.design_climate",))
    climateops.after_loading()


def generate(rng, idx):
    ops = []
    if idx % 7 == 3:
        # unit-aware calls, the user's own made unit-aware, weather stations
        obj = {"q": [], "objects": [0]}
        for n in range(rng.choice([1, 2])):
            if rng.random() < 0.6:
                o = {"k": "unit", "unit": c19.operation(rng, obj, rng.random() < 0.12), "obj": obj}
            else:
                o = {"k": "climate", "climate": climateops.operation(rng)}
            ops.append([o, [round(rng.random(), 6) for _ in range(rng.choice([4, 10]))] + [-rng.randint(1, 12)]])
        return {"ops": ops}
    for n in range(rng.choice([1, 2, 3])):
        key = K.KEYS[(idx + n * 331) % len(K.KEYS)] if rng.random() < 0.75 else K.pick_key(rng)
        rec = K.pick(rng, key, 30000)
        if rng.random() < 0.25:
            rec = K.POOL.perturb(rng, rec) if rng.random() < 0.7 else K.POOL.spoil(rng, rec)
        m = rng.choice([2, 4, 8, 12]) if rec.get("n", 100) < 5000 else 2
        pts = []
        for _ in range(m):
            pts.append(round(rng.random(), 6))
        if rng.random() < 0.3:
            pts.append(-rng.randint(1, 12))
        ops.append([{k: v for k, v in rec.items() if k != "n"}, pts])
    return {"ops": ops}


def bound(rec):
    if "climate" in rec:
        return climateops.Scene(rec["climate"])
    if "unit" in rec:
        o = c19.build({"obj": rec["obj"]})
        return lambda: c19.run_op(o, rec["unit"])
    return calls.Bound(rec)


def describe(rec):
    return json.dumps(rec["climate"]) if "climate" in rec else json.dumps([rec["unit"], rec["obj"]]) if "unit" in rec else K.describe(rec)


def has_callback(rec):
    if "climate" in rec or "unit" in rec:
        return False
    return '"cb"' in json.dumps(calls.parts(rec))


def run_at(rec, point, cbpoint=None):
    """One execution with an interrupt at that interrupt point (or evaluation of a callback)."""
    sim = engine.Sim((), [[0, point, "int"]] if point else (), max_steps=3_000_000)
    out = [None, None]
    raised = []
    last = []

    def body():
        t = sim.tasks[0]
        t.noyield += 1
        try:
            b = bound(rec)
        except Exception:
            return
        finally:
            t.noyield -= 1
        last.append(b)
        if cbpoint is not None:
            cnt = [0]

            def wrap(f):
                def g(*a, **k):
                    cnt[0] += 1
                    if cnt[0] == cbpoint:
                        e = engine.Interrupt("in user function, evaluation %d" % cbpoint)
                        raised.append(e)
                        raise e
                    return f(*a, **k)
                return g
            b.args = [wrap(a) if getattr(a, "__module__", "") == callbacks.__name__ else a for a in b.args]
            b.kw = {k: wrap(a) if getattr(a, "__module__", "") == callbacks.__name__ else a for k, a in b.kw.items()}
            try:
                out[0] = ("V", b())
            except BaseException as e:
                out[0] = ("E", e)
            out[1] = cnt[0]
            return
        try:
            out[0] = ("V", b())
        except BaseException as e:
            out[0] = ("E", e)
    sim.spawn(body)
    sim.run()
    if last and hasattr(last[0], "close"):
        last[0].close()
    t = sim.tasks[0]
    if t.exc is not None and out[0] is None:
        out[0] = ("E", t.exc)
    return out[0], t.ipoint, (t.injected or raised), sim, out[1]


def execute(plan):
    if any("f" not in r and ("climate" in r or "unit" in r) for r, _ in plan["ops"]):
        r = runner.fork_call(lambda: execute_here(plan), 100)     # these leave files, tables and caches behind
        if r[0] != "ok":
            raise runner.HarnessError(str(r))
        return r[1]
    return execute_here(plan)


def execute_here(plan):
    viol, key, stats = [], [], {"executions": 0}
    for rec, pts in plan["ops"]:
        o, n, _, sim, _ = run_at(rec, 0)
        if o is None or sim.over:
            continue
        total = sim.total
        cb = has_callback(rec)
        ncb = 0
        if cb:
            _, _, _, _, ncb = run_at(rec, 0, 1 << 60)
        for i, f in enumerate(pts):
            stats["executions"] += 1
            if cb and ncb and i % 2 == 0:
                at = 1 + int(abs(f) * ncb) if f >= 0 else min(ncb, -f)
                o, _, inj, sim, _ = run_at(rec, 0, at)
                where = "in the user's function, evaluation %d of %d" % (at, ncb)
                stats["fault:interrupt-in-callback"] = stats.get("fault:interrupt-in-callback", 0) + len(inj)
            else:
                if not n:
                    continue
                at = 1 + int(f * n) if f >= 0 else min(n, -f)
                o, last, inj, sim, _ = run_at(rec, at)
                where = "at point %d of %d" % (at, n)
                stats["fault:interrupt"] = stats.get("fault:interrupt", 0) + len(inj)
                if inj and last - at > PROMPT:
                    viol.append(["slow", "%s: interrupted %s the call went on for %d more points" % (describe(rec), where, last - at)])
            if not inj:
                continue
            key.append([K.key_of(rec), where])
            if o is None or o[0] == "V":
                viol.append(["swallowed", "%s: interrupted %s the call returned %s" % (describe(rec), where, K.brief(calls.canon(o[1])) if o else None)])
            elif o[1] is not inj[0]:
                viol.append(["replaced", "%s: interrupted %s the call raised %s: %s" % (describe(rec), where, type(o[1]).__name__, str(o[1])[:200])])
    return {"violations": viol[:5], "key": json.dumps(key), "stats": stats, "simtime": 0.0, "nontrivial": bool(key)}


def shrink(plan):
    if len(plan["ops"]) > 1:
        for i in range(len(plan["ops"])):
            yield {"ops": plan["ops"][:i] + plan["ops"][i + 1:]}
    for i, (r, pts) in enumerate(plan["ops"]):
        if len(pts) > 1:
            for p in pts:
                yield {"ops": plan["ops"][:i] + [[r, [p]]] + plan["ops"][i + 1:]}
