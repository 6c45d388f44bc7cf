"""One tank used by several threads at once, its tables built, rebuilt, interrupted and failing."""
from .. import calcsim as K, engine, sharedsim

PROPERTY = "C16"
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("a run shares one or two tanks of random geometry between 1-4 threads making 1-4 operations each - height to volume and back by every method, areas, building tables and "
        "approximations at random resolution, failing builds - with preemption before any line of library code and interrupts or failed allocations at any point, then "
        "queries it again; every answer must be bit for bit that of a private tank in a fresh process, at a resolution some build before or during the query asked for; "
        "non-trivial if a switch or fault was planned or follow-ups made")
MEASURE = "distinct (tank, operations, interleaving, cuts)"
REAL = ["fluids.geometry", "fluids.numerics", "fluids.optional.pychebfun", "scipy interpolation"]
STUBS = ["thread scheduler", "delivery of signals and allocation failures"]
ASSUMPTIONS = ["threads switch between lines of library code, not inside C code"]
TIMEOUT = 120.0
shrink = sharedsim.shrink
HEADS = [None, "conical", "ellipsoidal", "guppy", "spherical", "torispherical"]


def prepare(tier, seed):
    K.prepare(maxcost=1, line=True, interrupts=True, oracle=False)


def spec(rng):
    horizontal = rng.random() < 0.6
    heads = [h for h in HEADS if (h != "guppy" or horizontal)]
    w = [0.12 if h == "torispherical" and horizontal else 1.0 for h in heads]
    kw = {"horizontal": horizontal, "D": round(rng.uniform(0.3, 4), 3)}
    kw[rng.choice(["L", "L", "L_over_D"])] = round(rng.uniform(1, 6), 3)
    if rng.random() < 0.06:
        kw = {"horizontal": horizontal, "V": round(rng.uniform(1, 50), 2), "L_over_D": round(rng.uniform(1, 4), 2)}
    for s in ("A", "B"):
        h = rng.choices(heads, w)[0]
        if h is not None:
            kw["side" + s] = h
            if h in ("conical", "ellipsoidal", "spherical", "guppy"):
                r = rng.random()
                if r < 0.5 or "V" in kw:
                    kw["side%s_a_ratio" % s] = round(rng.uniform(0.1, 0.5), 3)
                elif r < 0.8:
                    kw["side%s_a" % s] = round(kw["D"] * rng.uniform(0.1, 0.5), 3)
            elif rng.random() < 0.4:
                kw["side%s_f" % s] = round(rng.uniform(0.8, 1.2), 2)
                kw["side%s_k" % s] = round(rng.uniform(0.06, 0.15), 3)
    return kw


def build(plan):
    import fluids.geometry as g
    return [g.TANK(**s) for s in plan["obj"]]


def run_op(tanks, op):
    t = tanks[op.get("on", 0)]
    k = op["op"]
    if k == "V":
        return t.V_from_h(op["f"] * t.h_max, op["method"])
    if k == "h":
        return t.h_from_V(op["f"] * t.V_total, op["method"])
    if k == "SA":
        return t.SA_from_h(op["f"] * t.h_max)
    if k == "A":
        return t.A_cross_sectional(op["f"] * t.h_max)
    if k == "table":
        return t.set_table(**op["kw"])
    if k == "table_dx":
        return t.set_table(dx=op["f"] * t.h_max)
    if k == "cheb":
        return t.set_chebyshev_approximators(*op["deg"])
    if k == "thick":
        u = t.add_thickness(op["f"] * 0.1)
        return [u.D, u.L, u.V_total, u.A]
    if k == "state":
        return [t.V_total, t.A, t.h_max, t.D, t.L, repr(t)]
    raise ValueError(k)


def op(rng, heavy):
    f = rng.choice([0.0, 0.05, 0.3, 0.5, 0.75, 0.999, 1.0, round(rng.random(), 4), round(rng.random(), 4)])
    r = rng.random()
    if r < 0.42:
        return {"op": "h", "f": f, "method": rng.choice(["spline", "spline", "spline", "brenth"])}
    if r < 0.54:
        return {"op": "V", "f": f, "method": "full"}
    if r < 0.70:
        return {"op": "table", "kw": {"n": rng.choice([8, 15, 30, 60])}} if rng.random() < 0.85 else {"op": "table", "kw": {"n": rng.choice([0, 1])}}
    if r < 0.73:
        return {"op": "table_dx", "f": rng.choice([0.1, 0.03])}
    if r < 0.80:
        return {"op": rng.choice(["SA", "A"]), "f": f}
    if r < 0.83:
        return {"op": "thick", "f": f}
    if r < 0.86:
        return {"op": "state"}
    if r < 0.93 and not heavy:
        return {"op": "cheb", "deg": [rng.choice([4, 6, 9]), rng.choice([5, 8])]}
    return None


def generate(rng, idx):
    obj = [spec(rng)]
    if rng.random() < 0.2:
        # a second tank, like the first but for one dimension, or another one
        other = dict(obj[0])
        k = rng.choice([k for k in ("D", "L", "L_over_D", "V") if k in other])
        other[k] = round(other[k] * rng.choice([0.9, 1.1, 1.5]), 3)
        obj.append(other if rng.random() < 0.7 else spec(rng))
    heavy = any(o["horizontal"] and "torispherical" in (o.get("sideA"), o.get("sideB")) for o in obj)
    cheb = not heavy and rng.random() < 0.3
    nt = rng.choice([1, 2, 2, 2, 3, 4])
    tasks = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            o = op(rng, heavy)
            if cheb and rng.random() < 0.6:
                x = rng.random()
                f = round(rng.random(), 4)
                if x < 0.4:
                    o = {"op": "cheb", "deg": [rng.choice([4, 6, 9]), rng.choice([5, 8])]}
                elif x < 0.7:
                    o = {"op": "V", "f": f, "method": "chebyshev"}
                else:
                    o = {"op": "h", "f": f, "method": "chebyshev"}
            if o is None:
                o = {"op": "h", "f": round(rng.random(), 4), "method": "spline"}
            ops.append(o)
        tasks.append(ops)
    if cheb and rng.random() < 0.85:
        # the default degrees are expensive: most runs choose their own first
        tasks[0].insert(0, {"op": "cheb", "deg": [rng.choice([4, 6, 9]), rng.choice([5, 8])]})
        for t in tasks[1:]:
            if any(o.get("method") == "chebyshev" for o in t):
                t.insert(0, {"op": "cheb", "deg": [rng.choice([4, 6, 9]), rng.choice([5, 8])]})
    after = []
    for f in (0.1, 0.6):
        after.append({"op": "h", "f": f, "method": "spline"})
    if any(o["op"] == "cheb" for t in tasks for o in t):
        after += [{"op": "V", "f": 0.4, "method": "chebyshev"}, {"op": "h", "f": 0.7, "method": "chebyshev"}]
    after.append({"op": "V", "f": 0.35, "method": "full"})
    if len(obj) > 1:
        for t in tasks:
            for o in t:
                o["on"] = rng.randrange(2)
        after += [dict(o, on=1) for o in after]
    plan = {"obj": obj, "tasks": tasks, "preempt": [], "cuts": [], "after": after, "isolate": len(obj) > 1 or rng.random() < 0.15}
    return world().schedule(rng, plan, 0.4)


def world():
    return sharedsim.World(build, run_op, candidates, max_steps=6_000_000)


def candidates(plan, log, e):
    o = e["op"]
    if not (o["op"] in ("h", "V") and o["method"] in ("spline", "chebyshev")):
        return [[o]]
    spline = o["method"] == "spline"
    log = [x for x in log if x["op"].get("on", 0) == o.get("on", 0)]
    names = ("table", "table_dx") if spline else ("cheb",)
    explicit = [x for x in log if x["op"]["op"] in names and x["start"] <= (e["end"] or 1 << 60) and (x["out"] or "C")[0] in "VCI"]
    query = [x for x in log if x["op"]["op"] in ("h", "V") and x["op"].get("method") == o["method"] and x is not e]
    done = [x for x in explicit if x["out"] and x["out"][0] == "V"]

    def finds_none(x):
        """May this query have found nothing built?"""
        return not any(d["end"] is not None and d["end"] < x["start"] for d in done + [q for q in query + [e] if q is not x and (q["out"] or "C")[0] == "V" and not q["cut"]])

    def replaced(w):
        return any(w["end"] is not None and d["start"] > w["end"] and d["end"] < e["start"] for d in done)
    out = []
    for w in explicit:
        if not replaced(w):
            out.append([w["op"], o])
    for q in query + [e]:
        if q["start"] <= (e["end"] or 1 << 60) and finds_none(q) and not replaced(q):
            out.append([o])
            break
    return out or [[o]]


def describe(plan, o):
    import json
    return "TANK(%s) %s" % (", ".join("%s=%r" % x for x in sorted(plan["obj"][o.get("on", 0)].items())), json.dumps(o))


def execute(plan):
    return world().execute(plan, describe)
