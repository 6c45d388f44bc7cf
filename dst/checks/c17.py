"""Particle size distributions used by several threads at once, interrupted, with a caller that edits its lists."""
import json

from .. import calcsim as K, sharedsim

PROPERTY = "C17"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("a run shares one or two distributions of random kind (discrete, interpolated, lognormal, Gates-Gaudin-Schuhman, Rosin-Rammler, custom) between 1-4 threads making 1-5 "
        "queries each - densities, cumulative and differential fractions, diameters, mean sizes, meshes, any basis - with preemption before any line of library code, "
        "interrupts or failed allocations at any point, and the caller editing the lists it passed in and got back; every answer must be bit for bit that of the same query "
        "alone on a private object in a fresh process; non-trivial if a switch or fault was planned or follow-ups made")
MEASURE = "distinct (distribution, queries, interleaving, cuts)"
REAL = ["fluids.particle_size_distribution", "fluids.numerics", "scipy interpolation and statistics"]
STUBS = ["thread scheduler", "delivery of signals and allocation failures", "the caller"]
ASSUMPTIONS = ["threads switch between lines of library code, not inside C code"]
TIMEOUT = 120.0
shrink = sharedsim.shrink
DS = [[240, 360, 450, 562.5, 703, 878, 1097, 1371, 1713, 2141, 2676, 3345, 4181, 5226, 6532],
      [10.0, 20.0, 40.0, 80.0, 160.0, 320.0], [1.0, 1.5, 2.2, 3.1, 4.4, 6.0, 9.0, 12.0]]
NUMS = [[65, 119, 232, 410, 629, 849, 990, 981, 825, 579, 297, 111, 21, 1], [5, 20, 45, 25, 5], [1, 3, 9, 14, 8, 4, 1]]


def prepare(tier, seed):
    K.prepare(maxcost=1, line=True, interrupts=True, oracle=False)


def spec(rng):
    k = rng.choice(["discrete"] * 6 + ["interpolated", "interpolated", "lognormal", "GGS", "RR", "custom"])
    sc = rng.choice([1e-6, 1e-6, 1.0])
    if k in ("discrete", "interpolated"):
        i = rng.randrange(len(DS))
        ds = [d * sc for d in DS[i]]
        fr = [float(x) for x in NUMS[i]]
        if rng.random() < 0.4:
            fr = [round(x * rng.uniform(0.5, 1.5), 3) for x in fr]
        if rng.random() < 0.5:
            s = sum(fr)
            fr = [x / s for x in fr]
        kw = {"ds": ds, "fractions": fr}
        if rng.random() < 0.35:
            kw["ds"] = ds[1:]
        if k == "discrete":
            kw["order"] = rng.choice([3, 3, 3, 0, 1, 2])
            if rng.random() < 0.15:
                c, cum = 0.0, []
                for x in fr:
                    c += x
                    cum.append(c)
                kw["fractions"] = [x / cum[-1] for x in cum]
                kw["cdf"] = True
            return {"cls": "ParticleSizeDistribution", "kw": kw, "scale": ds[len(ds) // 2], "array": rng.random() < 0.2}
        kw["order"] = rng.choice([3, 3, 0, 2])
        s = sum(fr)
        kw["fractions"] = [x / s for x in fr]
        return {"cls": "PSDInterpolated", "kw": kw, "scale": ds[len(ds) // 2], "array": False}
    d = 5.0 * sc
    kw = {"order": rng.choice([3, 3, 0, 2])}
    if rng.random() < 0.3:
        kw["d_min"] = d * 0.2
    if rng.random() < 0.3:
        kw["d_max"] = d * 4
    if k == "lognormal":
        kw.update(d_characteristic=d, s=rng.choice([0.3, 0.5, 0.9]))
        return {"cls": "PSDLognormal", "kw": kw, "scale": d}
    if k == "GGS":
        kw.pop("d_max", None)
        kw.update(d_characteristic=d, m=rng.choice([1.3, 2.3]))
        return {"cls": "PSDGatesGaudinSchuhman", "kw": kw, "scale": d}
    if k == "RR":
        kw.update(k=rng.choice([200.0, 2.0]), m=rng.choice([1.1, 2.2]))
        return {"cls": "PSDRosinRammler", "kw": kw, "scale": 0.1}
    kw["d_excessive"] = 1e-3
    return {"cls": "PSDCustom", "kw": kw, "dist": [0.5, 5e-6], "scale": 5e-6}


def build(plan):
    import fluids.particle_size_distribution as m
    import numpy
    out = []
    for s in plan["obj"]:
        kw = dict(s["kw"])
        for k in ("ds", "fractions"):
            if k in kw:
                kw[k] = numpy.array(kw[k]) if s.get("array") else list(kw[k])
        args = ()
        if "dist" in s:
            import scipy.stats
            args = (scipy.stats.lognorm(s=s["dist"][0], scale=s["dist"][1]),)
        out.append((getattr(m, s["cls"])(*args, **kw), kw))
    return out


def run_op(objs, op):
    p, kw = objs[op.get("on", 0)]
    k = op["op"]
    if k == "edit":
        for x in ("ds", "fractions"):
            if x in kw:
                v = kw[x]
                if op["how"] == "clear" and isinstance(v, list):
                    v.clear()
                else:
                    for i in range(len(v)):
                        v[i] = v[i] * 2.0 + 1.0
        return None
    if op.get("interp"):
        p = p.interpolated
    if k == "get":
        v = getattr(p, op["name"])
        return list(v) if isinstance(v, list) else v
    v = getattr(p, k)(**op["kw"])
    if isinstance(v, list):
        # the result belongs to the caller, who spoils it
        out = list(v)
        v.clear()
        return out
    return v


def query(rng, s):
    discrete = s["cls"] == "ParticleSizeDistribution"
    sc = s["scale"]

    def d():
        return sc * rng.choice([0.05, 0.3, 0.7, 1.0, 1.9, 4.0, round(rng.uniform(0.1, 3), 3)])
    n = rng.choice([None, None, 0, 1, 2, 3, rng.choice([-1, 4, 2.5])])
    p, q = rng.choice([(3, 2), (3, 3), (1, 0), (2, 2), (0, 0), (4, 3), (1, 1), (3, 0), (-1, 0), (2, 1)])
    r = rng.random()
    if r < 0.14:
        o = {"op": "pdf", "kw": {"d": d(), "n": n}}
    elif r < 0.32:
        o = {"op": "cdf", "kw": {"d": d(), "n": n}}
    elif r < 0.40:
        a, b = sorted([d(), d()])
        o = {"op": "delta_cdf", "kw": {"d_min": a, "d_max": b, "n": n}}
    elif r < 0.50:
        o = {"op": "dn", "kw": {"fraction": rng.choice([0.0, 0.1, 0.5, 0.9, 1.0, round(rng.random(), 3)]), "n": n if s["cls"] != "PSDCustom" else None}}
    elif r < 0.58:
        o = {"op": rng.choice(["fractions_discrete", "cdf_discrete"]), "kw": {"ds": sorted([d() for _ in range(4)]), "n": n}}
    elif r < 0.63 and s["cls"] != "PSDCustom":
        o = {"op": "ds_discrete", "kw": {"d_min": sc * 0.1, "d_max": sc * 5, "pts": 6, "method": rng.choice(["logarithmic", "linear"])}}
    elif r < 0.80:
        o = {"op": "mean_size", "kw": {"p": p, "q": q}}
    elif r < 0.86:
        o = {"op": "mean_size_ISO", "kw": {"k": rng.choice([1, 2, 0, -1]), "r": rng.choice([0, 1, 2, 3])}}
    elif r < 0.90:
        o = {"op": "get", "name": "vssa"}
    elif discrete and r < 0.96:
        o = rng.choice([{"op": "get", "name": x} for x in ("Dis", "fractions", "number_fractions", "length_fractions", "area_fractions", "fraction_cdf", "number_cdf", "length_cdf", "area_cdf", "N", "d_excessive")]
                       + [{"op": "di_power", "kw": {"i": 1, "power": rng.choice([1, 2, 3])}}])
    else:
        return {"op": "edit", "how": rng.choice(["clear", "scale"])}
    if discrete and rng.random() < 0.25 and o["op"] != "di_power" and o.get("name", "vssa") == "vssa":
        o["interp"] = True
    return o


def generate(rng, idx):
    obj = [spec(rng)]
    if rng.random() < 0.2:
        other = json.loads(json.dumps(obj[0])) if rng.random() < 0.6 else spec(rng)
        if "fractions" in other["kw"] and not other["kw"].get("cdf"):
            other["kw"]["fractions"].reverse()
        elif "s" in other["kw"]:
            other["kw"]["s"] = 0.7
        obj.append(other)
    tasks = []
    for t in range(rng.choice([1, 2, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            w = rng.randrange(len(obj))
            o = query(rng, obj[w])
            if w:
                o["on"] = w
            ops.append(o)
        tasks.append(ops)
    flat = [o for t in tasks for o in t if o["op"] != "edit"]
    after = [rng.choice(flat) for _ in range(2) if flat]
    for w in range(len(obj)):
        o = query(rng, obj[w])
        if w:
            o["on"] = w
        after.append(o)
        after.append({"op": "cdf", "kw": {"d": obj[w]["scale"], "n": rng.choice([None, 0, 2])}, "on": w})
    plan = {"obj": obj, "tasks": tasks, "preempt": [], "cuts": [], "after": after, "isolate": len(obj) > 1 or rng.random() < 0.15}
    return world().schedule(rng, plan, 0.35)


def world():
    return sharedsim.World(build, run_op, max_steps=4_000_000)


def describe(plan, o):
    s = plan["obj"][o.get("on", 0)]
    return "%s(%s)%s %s" % (s["cls"], json.dumps(s["kw"]), " %s" % s["dist"] if "dist" in s else "", json.dumps(o))


def execute(plan):
    return world().execute(plan, describe)
