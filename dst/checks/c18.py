"""Atmosphere models evaluated by several threads at once, over shared and reused input blocks, interrupted."""
import json
import math

from .. import calcsim as K, calls, sharedsim

PROPERTY = "C18"
RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("a run lets 1-4 threads make 1-4 evaluations each of NRLMSISE-00 (gtd7 on input and switch blocks shared between threads or reused within one, the class), of the US "
        "Standard Atmosphere, its pressure integral and airmass integrals, with random places, times, altitudes, solar activity, magnetic histories and switches, under "
        "preemption before any line of library code and interrupts or failed allocations at any point, and a density function that fails; every outcome must be bit for bit "
        "that of the same evaluation alone in a fresh process, and input, switch and magnetic blocks must still hold what the caller put there; non-trivial if a switch or "
        "fault was planned or follow-ups made")
MEASURE = "distinct (blocks, evaluations, interleaving, cuts)"
REAL = ["fluids.atmosphere", "fluids.nrlmsise00", "fluids.numerics quad and secant"]
STUBS = ["thread scheduler", "delivery of signals and allocation failures", "the caller and its density functions"]
ASSUMPTIONS = ["threads switch between lines of library code, not inside C code"]
TIMEOUT = 120.0
shrink = sharedsim.shrink
FIELDS = ("year", "doy", "sec", "alt", "g_lat", "g_long", "lst", "f107A", "f107", "ap")


def prepare(tier, seed):
    K.prepare(maxcost=1, line=True, interrupts=True, oracle=False, extra_modules=("fluids.atmosphere", "fluids.nrlmsise00", "scipy.integrate"))


class Objs:
    pass


def fill(i, f, block):
    for k in FIELDS:
        setattr(i, k, block[k])
    f.switches = list(block["switches"])
    if block["ap_a"] is None:
        i.ap_a = None
    else:
        import fluids.nrlmsise00 as n
        i.ap_a = n.ap_array()
        i.ap_a.a = list(block["ap_a"])


def build(plan):
    import fluids.nrlmsise00 as n
    o = Objs()
    o.shared = []
    for b in plan["obj"]["blocks"]:
        i, f = n.nrlmsise_input(), n.nrlmsise_flags()
        fill(i, f, b)
        o.shared.append((i, f, b))
    o.aps = [list(a) for a in plan["obj"]["aps"]]
    o.aps0 = plan["obj"]["aps"]
    o.own = {}
    return o


def kept(i, f, b):
    """The caller's input, switches and magnetic history, as it set them."""
    got = [getattr(i, k) for k in FIELDS] + [list(f.switches), None if i.ap_a is None else list(i.ap_a.a)]
    want = [b[k] for k in FIELDS] + [list(b["switches"]), b["ap_a"]]
    return "kept" if got == want else "changed: %r" % (got,)


def run_op(o, op):
    import fluids.atmosphere as a
    import fluids.nrlmsise00 as n
    k = op["op"]
    if k == "gtd7":
        out = n.nrlmsise_output()
        if "shared" in op:
            i, f, b = o.shared[op["shared"]]
        else:
            own = o.own.setdefault(op["own"], [n.nrlmsise_input(), n.nrlmsise_flags(), out])
            i, f, b = own[0], own[1], op["block"]
            fill(i, f, b)
            if op.get("keep_out"):
                out = own[2]
        n.gtd7(i, f, out)
        return [list(out.d), list(out.t), kept(i, f, b)]
    if k == "class":
        kw = dict(op["kw"])
        x = op.get("ap")
        if x is not None:
            kw["geomagnetic_disturbance_indices"] = o.aps[x]
        r = a.ATMOSPHERE_NRLMSISE00(**kw)
        return [dict(vars(r)), x is None or o.aps[x] == o.aps0[x]]
    if k == "us76":
        return dict(vars(a.ATMOSPHERE_1976(**op["kw"])))
    if k == "integral":
        return a.ATMOSPHERE_1976.pressure_integral(**op["kw"])
    if k == "parts":
        c = a.ATMOSPHERE_1976
        return [c.thermal_conductivity(op["T"]), c.viscosity(op["T"]), c.density(op["T"], op["P"]), c.sonic_velocity(op["T"]), c.gravity(op["Z"])]
    if k == "airmass":
        n_calls = [0]

        def rho(Z):
            n_calls[0] += 1
            if n_calls[0] == op["fail"]:
                raise ValueError("no density at %r" % Z)
            if op["model"] == "exp":
                return 1.225 * math.exp(-Z / op["h"])
            return a.ATMOSPHERE_1976(Z, op["dT"]).rho
        return a.airmass(rho, **op["kw"])
    raise AssertionError(k)


def block(rng):
    lst = round(rng.uniform(0, 24), 2)
    sw = [0] + [1] * 23
    r = rng.random()
    if r < 0.3:
        for _ in range(rng.choice([1, 2, 6])):
            sw[rng.randint(1, 23)] = rng.choice([0, 2])
    elif r < 0.4:
        sw = [rng.choice([0, 1, 1, 2]) for _ in range(24)]
    if rng.random() < 0.2:
        sw[0] = 1
    ap_a = None
    if rng.random() < 0.35:
        sw[9] = -1
        ap_a = [rng.choice([4.0, 100.0, round(rng.uniform(0, 300), 1)]) for _ in range(7)]
    return {"year": 0, "doy": rng.randint(1, 366), "sec": rng.choice([0, 29000, rng.randint(0, 86400)]), "alt": altitude(rng), "g_lat": rng.choice([60, -90, 0, round(rng.uniform(-90, 90), 1)]),
            "g_long": rng.choice([-70, 0, round(rng.uniform(-180, 180), 1)]), "lst": lst, "f107A": rng.choice([150, 70, round(rng.uniform(60, 250), 1)]),
            "f107": rng.choice([150, 180, round(rng.uniform(60, 300), 1)]), "ap": rng.choice([4, 40, 100]), "switches": sw, "ap_a": ap_a}


def altitude(rng):
    return rng.choice([0, 10, 30, 50, 70, 72.5, 100, 400, 1000, round(rng.uniform(0, 32.5), 2), round(rng.uniform(32.5, 72.5), 2), round(rng.uniform(72.5, 130), 2), round(rng.uniform(130, 800), 1)])


def evaluation(rng, obj, t):
    r = rng.random()
    if r < 0.35 and obj["blocks"]:
        return {"op": "gtd7", "shared": rng.randrange(len(obj["blocks"]))}
    if r < 0.55:
        return {"op": "gtd7", "own": t, "block": block(rng), "keep_out": rng.random() < 0.5}
    if r < 0.72:
        kw = {"Z": altitude(rng) * 1e3}
        for k, v in (("latitude", round(rng.uniform(-90, 90), 1)), ("longitude", round(rng.uniform(-180, 180), 1)), ("day", rng.randint(0, 366)),
                     ("seconds", float(rng.randint(0, 86400))), ("f107", round(rng.uniform(60, 300), 1)), ("f107_avg", round(rng.uniform(60, 250), 1))):
            if rng.random() < 0.5:
                kw[k] = v
        o = {"op": "class", "kw": kw}
        if rng.random() < 0.4:
            o["ap"] = rng.randrange(len(obj["aps"]))
        return o
    if r < 0.82:
        return {"op": "us76", "kw": {"Z": round(rng.choice([rng.uniform(-600, 90000), 11e3, 0.0, 47350.09]), 2), "dT": rng.choice([0.0, 0.0, -10.0, 15.5])}}
    if r < 0.88:
        return {"op": "integral", "kw": {"T1": round(rng.uniform(260, 310), 2), "P1": rng.choice([101325.0, 91325.0, 50000.0, 1e9, round(rng.uniform(3e4, 1.05e5), 0)]), "dH": rng.choice([-50.0, 10.0, 90.0, 1000.0])}}
    if r < 0.92:
        return {"op": "parts", "T": round(rng.uniform(180, 400), 1), "P": 1e5, "Z": 1000.0 * rng.randint(0, 80)}
    return {"op": "airmass", "model": rng.choice(["exp", "us76"]), "h": rng.choice([8000.0, 8400.0]), "dT": rng.choice([0.0, 10.0]),
            "fail": rng.choice([0, 0, 1, rng.randint(2, 60)]), "kw": {"angle": rng.choice([90, 5.0, round(rng.uniform(1, 90), 1)]), "H_max": rng.choice([86400.0, 20000.0])}}


def generate(rng, idx):
    obj = {"blocks": [block(rng) for _ in range(rng.choice([1, 1, 2]))], "aps": [[rng.choice([3.0, 10.0, 80.0]) for _ in range(7)] for _ in range(2)]}
    if rng.random() < 0.5:
        obj["blocks"][0]["alt"] = rng.choice([0, 30, round(rng.uniform(0, 72.5), 2)])
    tasks = []
    for t in range(rng.choice([1, 2, 2, 2, 3, 4])):
        tasks.append([evaluation(rng, obj, t) for _ in range(rng.choice([1, 1, 2, 3, 4]))])
    flat = [o for t in tasks for o in t]
    after = [rng.choice(flat) for _ in range(2)] + [{"op": "gtd7", "shared": rng.randrange(len(obj["blocks"]))}, evaluation(rng, obj, 0)]
    return world().schedule(rng, {"obj": obj, "tasks": tasks, "preempt": [], "cuts": [], "after": after, "isolate": rng.random() < 0.15}, 0.35)


def world():
    return sharedsim.World(build, run_op, max_steps=4_000_000)


def describe(plan, o):
    return json.dumps(o) + (" block %s" % json.dumps(plan["obj"]["blocks"][o["shared"]]) if "shared" in o else "")


def execute(plan):
    return world().execute(plan, describe)
