"""Unit-aware calls: histories, interleavings, interruption, and agreement with the plain calculation."""
import json
import os

from .. import calcsim as K, calls, runner, sharedsim, unitfns

PROPERTY = "C19"
RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("a run lets 1-3 threads make 1-5 unit-aware operations each - calls of every wrapped function with compatible, incompatible and missing units and arrays, on quantities "
        "private or shared between threads, of unit-aware objects shared between threads, and making the user's own functions and classes unit-aware - under preemption before "
        "any line of library code, interrupts and failed allocations at any point, with a caller that edits what it got; every outcome must be that of the same operation "
        "alone in a fresh process, quantities passed in must keep value and unit, and calls of documented functions must carry the value of the plain call on the converted "
        "inputs with the documented unit; non-trivial if a switch or fault was planned or follow-ups made")
MEASURE = "distinct (operations, interleaving, cuts)"
REAL = ["fluids.units", "fluids.vectorized", "the functions they wrap", "pint"]
STUBS = ["thread scheduler", "delivery of signals and allocation failures", "the caller"]
ASSUMPTIONS = ["threads switch between lines of library code, not inside pint or C code",
               "documented units are those pinned in corpus/units.json when the corpus was recorded"]
TIMEOUT = 120.0
shrink = sharedsim.shrink

ALT = {"m": [("ft", 1 / 0.3048), ("cm", 100.0), ("mm", 1000.0), ("inch", 1 / 0.0254)], "Pa": [("psi", 1 / 6894.757293168361), ("kPa", 1e-3), ("bar", 1e-5)],
       "kg/m^3": [("g/cm^3", 1e-3), ("lb/ft^3", 1 / 16.018463373960142)], "Pa*s": [("cP", 1000.0), ("mPa*s", 1000.0)], "K": [("degR", 1.8), ("degC", None)],
       "m/s": [("ft/s", 1 / 0.3048), ("km/hour", 3.6)], "kg/s": [("kg/hour", 3600.0), ("lb/s", 1 / 0.45359237)], "m^3/s": [("L/s", 1000.0), ("m^3/hour", 3600.0)],
       "m^2": [("cm^2", 1e4)], "m^3": [("L", 1000.0)], "degrees": [("radian", 0.017453292519943295)], "N/m": [("dyn/cm", 1000.0)], "m/s^2": [("ft/s^2", 1 / 0.3048)],
       "J/kg/K": [("kJ/kg/K", 1e-3)], "g/mol": [("kg/mol", 1e-3)], "dimensionless": [("percent", 100.0)]}
WRONG = ["kg", "m", "Pa", "s", "K", "A"]
VARIABLE = ("nu_mu_converter", "differential_pressure_meter_solver", "isothermal_gas", "Panhandle_A", "Panhandle_B", "Weymouth", "Spitzglass_high", "Spitzglass_low", "Oliphant",
            "Fritzsche", "Muller", "IGT")
SKIPFN = ("A_multiple_hole_cylinder", "V_multiple_hole_cylinder", "liquid_jet_pump")
ODDUNITS = ("(1/m)^m", "sqrt(")      # no units at all: such functions have no unit-aware form
TABLE = {}
GOOD = []
OBJECTS = [
    ("TANK", {"L": [3.0, "m"], "D": [150.0, "cm"], "horizontal": [True, None], "sideA": ["conical", None], "sideB": ["spherical", None], "sideA_a": [1.0, "ft"], "sideB_a": [0.3, "m"]},
     ["h_max", "V_total", "L_over_D", "A", "A_lateral", "A_sideA", "sideA_a", "sideA", "horizontal", "D", "L"],
     [("V_from_h", {"h": [40.0, "cm"], "method": ["full", None]}), ("h_from_V", {"V": [1500.0, "L"], "method": ["brenth", None]}), ("V_from_h", {"h": [0.4, "m"]}), ("SA_from_h", {"h": [0.4, "m"]}),
      ("V_from_h", {"h": [0.4, "kg"]}), ("h_from_V", {"V": [1.5, None]})]),
    ("HelicalCoil", {"Do": [30.0, "cm"], "H": [20.0, "cm"], "pitch": [5.0, "cm"], "Dt": [2.0, "cm"]}, ["Dt", "Do_total", "H_total", "N", "tube_length", "surface_area", "curvature", "helix_angle"], []),
    ("ATMOSPHERE_1976", {"Z": [5000.0, "ft"]}, ["T", "P", "rho", "g", "mu", "k", "v_sonic", "Z", "H"],
     [("sonic_velocity", {"T": [300.0, "K"]}), ("viscosity", {"T": [30.0, "degC"]}), ("density", {"T": [300.0, "K"], "P": [1.0, "bar"]}), ("pressure_integral", {"T1": [288.6, "K"], "P1": [84.0, "kPa"], "dH": [147.0, "m"]})]),
    ("ATMOSPHERE_NRLMSISE00", {"Z": [1e3, "m"], "latitude": [45.0, "degrees"], "longitude": [0.78, "radian"], "day": [150.0, "day"]}, ["T", "P", "rho", "O2_density", "day"], []),
    ("PlateExchanger", {"amplitude": [5e-4, "m"], "wavelength": [3.7, "mm"], "length": [1.2, "m"], "width": [0.3, "m"], "d_port": [0.05, "m"], "plates": [51, None]},
     ["plate_corrugation_aspect_ratio", "D_eq", "D_hydraulic", "A_channel_flow", "channels", "length_port"], []),
]
CLASSOPS = [("ATMOSPHERE_1976", "sonic_velocity", {"T": [310.0, "K"]}), ("ATMOSPHERE_1976", "gravity", {"Z": [3.0, "km"]}), ("ATMOSPHERE_1976", "sonic_velocity", {"T": [310.0, "m"]})]
OWN = [("both", {"D": [3.0, "ft"], "L": [2.0, "m"]}), ("both", {"D": [3.0, "m"]}), ("both", {"D": [3.0, "kg"]}), ("other", {"V": [3.0, "km/hour"], "P": [1.0, "bar"], "T": [20.0, "degC"]}),
       ("other", {"P": [1.0, "bar"], "V": [3.0, "m/s"]}), ("Box", {"a": [2.0, "ft"], "m": [3.0, "lb"]}), ("Box", {"a": [2.0, "m"], "m": [3.0, "kg"]})]


def prepare(tier, seed, maxcost=12000, more=()):
    K.prepare(maxcost=maxcost, line=True, interrupts=True, oracle=False, keys=lambda k: True, extra_modules=("pint", "fluids.units") + more)
    TABLE.update({k: {"in": dict(map(tuple, v["in"])), "out": v["out"]} for k, v in json.load(open(os.path.join(calls.HERE, "corpus", "units.json"))).items()})
    GOOD[:] = [k for k in sorted(K.CORPUS) if k in TABLE and k.split(":")[1] not in SKIPFN and not any(x in json.dumps(TABLE[k]) for x in ODDUNITS)]


def number(v):
    return type(v) in (int, float) and not isinstance(v, bool)


def unit_call(rng, obj):
    k = rng.choice(GOOD)
    rec = rng.choice(K.CORPUS[k])
    p = calls.parts(rec)
    if p["args"]:
        return None
    kw = {}
    for n, v in p["kw"].items():
        unit = TABLE[k]["in"].get(n)
        if unit is None:
            return None
        if number(v) and unit != "dimensionless":
            kw[n] = in_unit(rng, v, unit)
        elif number(v) and rng.random() < 0.15:
            kw[n] = in_unit(rng, v, "dimensionless")
        elif isinstance(v, list) and unit != "dimensionless" and v and all(number(x) for x in v):
            kw[n] = [{"a": ["float64", [len(v)], [float(x) for x in v]]}, unit]
        else:
            kw[n] = [v, None]
    o = {"op": "call", "k": k, "kw": kw}
    r = rng.random()
    names = [n for n in sorted(kw) if kw[n][1]]
    if r < 0.08 and names:
        kw[rng.choice(names)][1] = rng.choice(WRONG)
        o["odd"] = True
    elif r < 0.14 and names:
        kw[rng.choice(names)][1] = None
        o["odd"] = True
    elif r < 0.17:
        kw["no_such_argument"] = [1.0, None]
        o["odd"] = True
    elif r < 0.27 and names:
        n = rng.choice(names)
        if number(kw[n][0]):
            x = float(kw[n][0])
            kw[n][0] = {"a": ["float64", [3], [x, x * 1.05, x * 0.97]]}
            o["odd"] = True
    if rng.random() < 0.15 and names and not o.get("odd"):
        # positional, as far as the order is known
        o["pos"] = True
    if rng.random() < 0.25:
        for n in kw:
            if kw[n][1] and rng.random() < 0.6:
                obj["q"].append(kw[n])
                kw[n] = {"q": len(obj["q"]) - 1}
    return o


def in_unit(rng, v, unit):
    alts = ALT.get(unit)
    if not alts or rng.random() < 0.4:
        return [v, unit]
    u2, f = rng.choice(alts)
    return [float(v) - 273.15, u2] if f is None else [v * f, u2]


def operation(rng, obj, own=False):
    while True:
        r = 1.0 if own else rng.random()
        if r < 0.6:
            o = unit_call(rng, obj)
            if o is None:
                continue
            if rng.random() < 0.2:
                o["spoil"] = True
            return o
        if r < 0.85:
            if r < 0.65:
                c, m, kw = rng.choice(CLASSOPS)
                return {"op": "static", "cls": c, "m": m, "kw": kw}
            i = rng.randrange(len(OBJECTS))
            if rng.random() < 0.7:
                i = obj["objects"][rng.randrange(len(obj["objects"]))]
                on = obj["objects"].index(i)
            else:
                on = None
            props, ms = OBJECTS[i][2], OBJECTS[i][3]
            o = {"op": "object", "i": i, "on": on}
            if ms and rng.random() < 0.5:
                o["m"], o["kw"] = rng.choice(ms)
            else:
                o["p"] = rng.sample(props, min(len(props), rng.choice([1, 2, 4])))
            return o
        n, kw = rng.choice(OWN)
        return {"op": "own", "fn": n, "kw": kw}


class Objs:
    pass


def quantity(U, a):
    v = calls.dec(a[0])
    return U.u.Quantity(v, a[1]) if a[1] else v


def build(plan):
    import fluids.units as U
    o = Objs()
    o.q0 = plan["obj"]["q"]
    o.q = [quantity(U, a) for a in o.q0]
    o.objects = [make(U, i) for i in plan["obj"]["objects"]]
    return o


def make(U, i):
    cls, kw = OBJECTS[i][:2]
    return getattr(U, cls)(**{n: quantity(U, a) for n, a in kw.items()})


def plain(v):
    """Quantities as (value, unit) so that two are equal iff both are."""
    if hasattr(v, "magnitude") and hasattr(v, "units"):
        return ("Q", plain(v.magnitude), str(v.units))
    if type(v) is list:
        return [plain(x) for x in v]
    if type(v) is tuple:
        return tuple(plain(x) for x in v)
    if type(v) is dict:
        return {k: plain(x) for k, x in v.items()}
    return v


def spoil(v):
    if type(v) is list:
        v.clear()
    elif type(v) is dict:
        for k in v:
            v[k] = None
    elif hasattr(v, "magnitude") and hasattr(v.magnitude, "dtype") and getattr(v.magnitude, "ndim", 0):
        v.magnitude.fill(-1.0)


def order(U, fn, kw):
    import inspect
    names = [n for n in inspect.signature(fn).parameters]
    pos = []
    for n in names:
        if n not in kw:
            break
        pos.append(n)
    return pos


def run_op(o, op):
    import fluids
    import fluids.units as U
    k = op["op"]
    if k == "call":
        name = op["k"].split(":")[1]
        f = getattr(U, name)
        kw = {n: o.q[a["q"]] if isinstance(a, dict) else quantity(U, a) for n, a in op["kw"].items()}
        before = {n: calls.canon(plain(v)) for n, v in kw.items()}
        try:
            if op.get("pos"):
                pos = order(U, getattr(fluids, name), kw)
                r = f(*[kw[n] for n in pos], **{n: v for n, v in kw.items() if n not in pos})
            else:
                r = f(**kw)
        finally:
            after = {n: calls.canon(plain(v)) for n, v in kw.items()}
            if before != after:
                raise AssertionError("quantities passed in were changed: %r" % [n for n in before if before[n] != after[n]])
        out = plain(r)
        if op.get("spoil"):
            out = json.loads(json.dumps(calls.canon(out)))
            spoil(r)
            out = [out, {n: calls.canon(plain(v)) for n, v in kw.items()} == before]
        return out
    if k == "static":
        return plain(getattr(getattr(U, op["cls"]), op["m"])(**{n: quantity(U, a) for n, a in op["kw"].items()}))
    if k == "object":
        x = o.objects[op["on"]] if op["on"] is not None else make(U, op["i"])
        if "m" in op:
            return plain(getattr(x, op["m"])(**{n: quantity(U, a) for n, a in op["kw"].items()}))
        return [plain(getattr(x, p)) for p in op["p"]]
    if k == "own":
        kw = {n: quantity(U, a) for n, a in op["kw"].items()}
        if op["fn"] == "Box":
            b = U.wrap_numpydoc_obj(unitfns.Box)(**kw)
            return [plain(b.V), plain(b.rho), plain(b.a), plain(b.force(g=U.u.Quantity(9.8, "m/s^2"))), plain(b.sides(dx=U.u.Quantity(1.0, "ft")))]
        return plain(U.wraps_numpydoc(U.u)(unitfns.ALL[op["fn"]])(**kw))
    raise AssertionError(k)


def generate(rng, idx):
    obj = {"q": [], "objects": rng.sample(range(len(OBJECTS)), rng.choice([1, 2]))}
    tasks = []
    own = rng.random() < 0.1
    for t in range(rng.choice([1, 2, 2, 2, 3])):
        tasks.append([operation(rng, obj, own) for _ in range(rng.choice([1, 2, 3, 5]))])
    flat = [o for t in tasks for o in t]
    if len(tasks) > 1 and rng.random() < 0.4:
        o = rng.choice(flat)        # several threads do the same thing at once
        for t in tasks:
            t[0] = o
    after = [rng.choice(flat) for _ in range(2)] + [operation(rng, obj)]
    own = [o for t in tasks for o in t if o["op"] == "own"]
    if own:
        after.append(rng.choice(own))
    return world().schedule(rng, {"obj": obj, "tasks": tasks, "preempt": [], "cuts": [], "after": after, "isolate": rng.random() < 0.3}, 0.4)


def world():
    return sharedsim.World(build, run_op, max_steps=6_000_000)


def describe(plan, o):
    return json.dumps(o) + (" with " + json.dumps(plan["obj"]["q"]) if '{"q":' in json.dumps(o) else "")


def expected(k, out_units, solved, name):
    if name in VARIABLE:
        return [["", TABLE[k]["in"][n]] for n in solved]
    return out_units


def plain_check(plan, op):
    """The unit-aware call against the plain call on the converted inputs: a text if they disagree."""
    import fluids
    import fluids.units as U
    name = op["k"].split(":")[1]
    t = TABLE[op["k"]]
    kw, q = {}, {}
    for n, a in op["kw"].items():
        if isinstance(a, dict):
            a = plan["obj"]["q"][a["q"]]
        x = quantity(U, a)
        q[n] = x
        unit = t["in"][n]
        kw[n] = x.to(unit).magnitude if a[1] and unit != "dimensionless" else x.to_base_units().magnitude if a[1] else x
    if not all(a[1] or not number(quantity(U, a)) or t["in"][n] == "dimensionless" for n, a in ((n, plan["obj"]["q"][a["q"]] if isinstance(a, dict) else a) for n, a in op["kw"].items())):
        return None
    try:
        want = getattr(fluids, name)(**kw)
    except Exception as e:
        want = e
    if not isinstance(want, (Exception, str, bool)) and not numeric(want):
        return None         # text, dates and missing values among the results: no quantities
    try:
        got = getattr(U, name)(**q)
    except Exception as e:
        got = e
    if isinstance(want, Exception) or isinstance(got, Exception):
        if isinstance(want, Exception) != isinstance(got, Exception):
            return "plain gives %s, unit-aware gives %s" % (brief(want), brief(got))
        if type(want) is not type(got) or str(want) != str(got):
            return "plain raises %s, unit-aware raises %s" % (brief(want), brief(got))
        return None
    outs = t["out"]
    if name in VARIABLE:
        solved = [n for n in t["in"] if n in ("mu", "nu", "D", "D2", "P1", "P2", "m", "L", "L1", "L2", "Q") and n not in q]
        outs = [["", t["in"][n]] for n in solved[:1]]
    return differ(U, want, got, outs)


def numeric(v):
    if isinstance(v, dict):
        return all(numeric(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(numeric(x) for x in v)
    return number(v) or getattr(getattr(v, "dtype", None), "kind", "") in ("f", "i")


def differ(U, want, got, outs):
    import numpy
    if want is None or isinstance(want, (str, bool)):
        return None if want == got and type(got) is type(want) else "plain gives %r, unit-aware gives %r" % (want, got)
    if type(want) is dict:
        if type(got) is not dict or list(got) != list(want):
            return "results named %r, plain ones %r" % (list(got), list(want))
        units = dict(map(tuple, outs))
        for k in want:
            if k not in units:
                return None
            r = differ(U, want[k], got[k], [[k, units[k]]])
            if r:
                return "%s: %s" % (k, r)
        return None
    if not outs:
        return None
    if (isinstance(want, (list, tuple)) and len(outs) > 1) or isinstance(want, tuple):
        if len(got) != min(len(want), len(outs)):
            return "%d results, plain call %d" % (len(got), len(want))
        for a, b, u in zip(want, got, outs):
            r = differ(U, a, b, [u])
            if r:
                return r
        return None
    unit = outs[0][1]
    if not hasattr(got, "magnitude"):
        return "plain gives %r, unit-aware gives %r without a unit" % (want, got)
    try:
        g = numpy.asarray(got.to(unit).magnitude, dtype=float)
    except Exception as e:
        return "result in %s, documented unit %s" % (got.units, unit)
    w = numpy.asarray(want, dtype=float)
    if g.shape != w.shape or not numpy.allclose(g, w, rtol=1e-12, atol=0, equal_nan=True):
        return "plain gives %r %s, unit-aware gives %s" % (want, unit, got)
    return None


def brief(v):
    return "%s(%s)" % (type(v).__name__, str(v)[:120])


def execute(plan):
    r = world().execute(plan, describe)
    ops = [o for t in plan["tasks"] for o in t if o["op"] == "call" and not o.get("odd") and not o.get("pos") 
           and not any(isinstance((plan["obj"]["q"][a["q"]] if isinstance(a, dict) else a)[0], dict) for a in o["kw"].values())]

    def f():
        return [(o, plain_check(plan, o)) for o in ops]
    if ops:
        x = runner.fork_call(f, 90)
        if x[0] == "err":
            raise runner.HarnessError(x[1])
        if x[0] == "ok":
            for o, text in x[1]:
                if text:
                    r["violations"].append(["plain", "%s: %s" % (describe(plan, o), text)])
    r["violations"] = r["violations"][:4]
    return r
