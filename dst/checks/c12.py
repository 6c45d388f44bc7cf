"""Calls under swarm-chosen surroundings: zone, clock, locale, directory, hash seed, random streams, threads, numpy settings."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from .. import ambient, boot, calcsim as K, calls, engine

PROPERTY = "C12"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("a run puts a random configuration on the process - time zone, wall and monotonic clock offset and a jump at every clock read, entropy source, locale, working "
        "directory, environment, both random streams, decimal and numpy settings, calling thread - makes 3-30 library calls and compares each, bit for bit, with the "
        "call made alone in the plain process; the surroundings are compared before and after each call, in some runs also of calls refused, cut short by an interrupt "
        "or a failed allocation at a random point, and of pumps with and without a solution. One run in 41 makes ~100 calls in a process image started under "
        "another hash seed, zone and locale. Non-trivial always")
MEASURE = "distinct (configuration, calls)"
REAL = ["every library function called, whole package", "numpy and scipy underneath", "C library clocks, time zones and locales"]
STUBS = ["clock_gettime/time/gettimeofday/getrandom through a preloaded seam"]
ASSUMPTIONS = ["the liquid jet pump's random draws are C22's subject; differential evolution draws from the numpy stream unless given a seed, as documented"]
TIMEOUT = 120.0
PRELOAD = True
ZONES = ["UTC", "America/Edmonton", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/Berlin", "Australia/Lord_Howe", "EST5EDT",
         "XXX-13:37", "YYY+11", "Antarctica/Troll", "America/St_Johns"]
LOCPATH = None
PUMPS = []
MOMENTS = ("fluids.atmosphere:solar_position", "fluids.atmosphere:sunrise_sunset", "fluids.atmosphere:earthsun_distance",
           "fluids.atmosphere:solar_irradiation")


def prepare(tier, seed):
    global LOCPATH, PUMPS
    LOCPATH = ambient.locale_path()
    K.prepare(maxcost=40000, threads=False, keys=lambda k: "differential_evolution" not in k)
    PUMPS = calls.load_corpus(None, keys=lambda k: k.endswith("jet_pump:liquid_jet_pump"))["fluids.jet_pump:liquid_jet_pump"]


def moment(rng):
    y = rng.choice([1975, 1999, 2003, 2018, 2018, 2024, 2031])
    m, d = rng.choice([(1, 1), (3, 25), (3, 31), (7, 4), (10, 27), (10, 28), (11, 4), (12, 31), (rng.randint(1, 12), rng.randint(1, 28))])
    h = rng.choice([0, 1, 2, 3, 12, 23, rng.randint(0, 23)])
    tz = rng.choice([None, None, "America/Edmonton", "Australia/Perth", "UTC", "Europe/Berlin", "Pacific/Kiritimati", 0, -25200, 19800])
    return {"dt": [y, m, d, h, rng.choice([0, 30, 59, rng.randint(0, 59)]), rng.randint(0, 59), rng.choice([0, 500000]), tz]}


def moments(rng, rec):
    """The call with another moment and place."""
    r = calls.clone(rec)
    p = calls.parts(r)
    for k in p["kw"]:
        if k == "moment":
            p["kw"][k] = moment(rng)
        elif k == "latitude":
            p["kw"][k] = round(rng.uniform(-65, 65), 4)
        elif k == "longitude":
            p["kw"][k] = round(rng.uniform(-180, 180), 4)
    r["n"] = 3000
    return r


def pick_some(rng, first, n, budget):
    recs = [first]
    while len(recs) < n and budget > 0:
        x = rng.random()
        if x < 0.12:
            k = rng.choice([k for k in MOMENTS if k in K.CORPUS])
            r = moments(rng, rng.choice(K.CORPUS[k]))
        elif x < 0.4:
            r = K.similar_call(rng, first, 0.6)
        else:
            r = K.pick(rng, K.pick_key(rng), 6000)
        budget -= r.get("n", 300)
        recs.append(r)
    return [{k: v for k, v in r.items() if k != "n"} for r in recs]


def generate(rng, idx):
    if idx % 41 == 7:
        n = len(K.KEYS)
        block = (idx // 41) * 90
        recs = []
        for j in range(90):
            key = K.KEYS[(block + j) % n]
            r = K.pick(rng, key, 8000)
            recs.append(K.similar_call(rng, r, 0.5) if rng.random() < 0.35 else r)
        return {"child": {"PYTHONHASHSEED": str(rng.choice([1, 2, rng.randrange(1 << 32), rng.randrange(1 << 32)])), "TZ": rng.choice(ZONES),
                          "LANG": rng.choice(["C", "C.UTF-8", "de_DE.UTF-8"]), "HOME": rng.choice(["/nonexistent", "/tmp"])},
                "calls": [{k: v for k, v in r.items() if k != "n"} for r in recs]}
    key = K.KEYS[idx % len(K.KEYS)] if rng.random() < 0.7 else K.pick_key(rng)
    cfg = {}
    def p(x):
        return rng.random() < x
    if p(0.75):
        cfg["tz"] = rng.choice(ZONES)
    if p(0.6):
        cfg["clock"] = [rng.choice([0, 3600, -86400, 86400 * 180, -1.6e9, 3e9, rng.uniform(-1e9, 1e9)]), rng.choice([0, 0, 1, 61, 86400, -3600, 1e6]),
                        rng.randrange(1, 1 << 62)]
    if p(0.4):
        cfg["locale"] = rng.choice([n + ".UTF-8" for n in ambient.LOCALES] + ["C"])
        cfg["env"] = {"LOCPATH": LOCPATH} if LOCPATH else {}
    if p(0.4):
        cfg.setdefault("env", {}).update(rng.choice([{"LANG": "tr_TR.UTF-8"}, {"HOME": "/nonexistent", "USER": "nobody"}, {"COLUMNS": "20"}, {"LC_NUMERIC": "de_DE.UTF-8"}]))
    if p(0.4):
        cfg["cwd"] = rng.choice(["here", "a/b/c", "ünïcode dir"])
    if p(0.6):
        cfg["pyseed"] = rng.randrange(1 << 30)
    if p(0.6):
        cfg["npseed"] = rng.randrange(1 << 30)
    if p(0.4):
        cfg["seterr"] = rng.choice(SETERR)
    if p(0.25):
        cfg["prec"] = rng.choice([3, 6, 50])
    if p(0.35):
        cfg["thread"] = [rng.choice(["worker", "MainThread", "T-%d" % rng.randint(0, 99)]), rng.choice([0, 0, 1, 3])]
    first = K.pick(rng, key)
    if key in MOMENTS and p(0.8):
        first = moments(rng, first)
    if idx % 11 == 4:
        ops = [[pump(rng), cuts(rng)] for _ in range(rng.choice([1, 2, 4]))]
        return {"cfg": cfg, "ops": ops + [[r, []] for r in pick_some(rng, first, 3, 4000)]}
    if idx % 5 == 3:
        ops = []
        for r in pick_some(rng, first, rng.choice([2, 4, 8]), 20000):
            if rng.random() < 0.3:
                r = {k: v for k, v in (K.POOL.spoil if rng.random() < 0.6 else K.POOL.perturb)(rng, r).items() if k != "n"}
            ops.append([r, cuts(rng)])
        return {"cfg": cfg, "ops": ops}
    return {"cfg": cfg, "calls": pick_some(rng, first, rng.choice([3, 8, 20, 30]), 60000)}


def cuts(rng):
    return [[round(rng.random(), 6), rng.choice(["int", "mem"])] for _ in range(rng.choice([0, 1, 1, 3]))]


def pump(rng):
    """A pump, half the time changed so that it may have no solution, or with its search cut down."""
    r = calls.clone(rng.choice(PUMPS))
    p = calls.parts(r)
    kw = p["kw"]
    if rng.random() < 0.6:
        k = rng.choice([k for k in ("d_nozzle", "d_mixing", "Qs", "Qp", "P1", "P2", "P5") if isinstance(kw.get(k), float)])
        kw[k] *= rng.choice([0.01, 0.5, 0.9, 1.1, 3.0, 1e3, -1.0])
    if rng.random() < 0.9:
        kw["max_variations"] = rng.choice([1, 2, 5, 20])
    return {k: v for k, v in r.items() if k != "n"}


SETERR = [{"all": "ignore"}, {"all": "warn"}, {"divide": "ignore", "invalid": "warn"}, {"all": "raise"}]


def execute(plan):
    if "ops" in plan:
        return execute_cut(plan)
    cache = {}
    want = [K.expected(r, cache) for r in plan["calls"]]
    if any(K.hangs(w) for w in want):
        plan = dict(plan, calls=[r for r, w in zip(plan["calls"], want) if not K.hangs(w)])
        want = [w for w in want if not K.hangs(w)]
    if "child" in plan:
        return execute_child(plan, want)
    scratch = tempfile.mkdtemp(prefix="dst-c12-")
    viol = []
    stats = {"calls": 0}
    for k in plan["cfg"]:
        stats["ambient:" + k] = 1
    home = os.getcwd()
    try:
        a = ambient.Ambient(plan["cfg"], scratch)

        def one(r):
            before = a.snapshot()
            got = calls.outcome(r)
            after = a.snapshot()
            return got, [k for k in before if before[k] != after[k]]
        for i, r in enumerate(plan["calls"]):
            if K.hangs(want[i]):
                continue
            got, moved = a.call(lambda: one(r))
            stats["calls"] += 1
            if got.startswith("Eexc FloatingPointError") and plan["cfg"].get("seterr") == {"all": "raise"}:
                continue        # numpy was asked to raise
            if got != want[i] and not want[i].startswith("H"):
                viol.append(["depends", "call %d under %s: %s" % (i, json.dumps(plan["cfg"]), K.diff_text(r, got, want[i]))])
            for m in moved:
                viol.append(["disturbs", "call %d, %s, changed the %s" % (i, K.describe(r), m)])
            if len(viol) > 3:
                break
        if a.clock.on is not None and plan["cfg"].get("clock"):
            stats["clock-reads"] = a.clock.reads.value
            stats["entropy-reads"] = a.clock.entropy_reads.value
        a.done()
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
    return {"violations": viol[:4], "key": json.dumps([plan["cfg"], [K.key_of(r) for r in plan["calls"]]]), "stats": stats, "simtime": 0.0, "nontrivial": True}


FREE = {"fluids.jet_pump:liquid_jet_pump": ("standard random stream",)}


def run_cut(a, rec, cut):
    """(what moved, outcome, points passed, was it cut) of one call in a thread of its own, cut at that point."""
    sim = engine.Sim((), [[0] + cut] if cut else (), max_steps=1_000_000)
    got = []

    def body():
        t = sim.tasks[0]
        t.noyield += 1
        a.thread_settings()
        b = calls.Bound(rec)
        before = a.snapshot()
        t.noyield -= 1
        try:
            try:
                b()
                o = "V"
            except engine.SimAbort:
                raise
            except BaseException as e:
                o = "E" + type(e).__name__
        finally:
            t.noyield += 1
            after = a.snapshot()
            got.append([k for k in before if before[k] != after[k]])
        got.append(o)
    sim.spawn(body)
    sim.run()
    return got, sim.tasks[0].ipoint, sim.tasks[0].injected


def execute_cut(plan):
    """Calls refused or cut short leave the surroundings as they were too."""
    scratch = tempfile.mkdtemp(prefix="dst-c12-")
    viol, stats = [], {"calls": 0}
    for k in plan["cfg"]:
        stats["ambient:" + k] = 1
    home = os.getcwd()
    cfg = {k: v for k, v in plan["cfg"].items() if k != "thread"}
    cfg.setdefault("pyseed", 0)
    engine.monitor(boot.ALL_CODE, line=False, interrupts=True)
    try:
        a = ambient.Ambient(cfg, scratch)
        for i, (rec, cs) in enumerate(plan["ops"]):
            n = None
            for c in [None] + cs:
                if c is not None and not n:
                    continue
                try:
                    got, m, inj = run_cut(a, rec, [1 + int(c[0] * n), c[1]] if c else None)
                except Exception as e:
                    raise RuntimeError("%s: %r" % (K.describe(rec), e))
                if c is None:
                    n = m
                if len(got) < 2:
                    break       # ran out of simulated steps: nothing learnt
                stats["calls"] += 1
                if inj:
                    k = "fault:interrupt" if c[1] == "int" else "fault:alloc-failure"
                    stats[k] = stats.get(k, 0) + 1
                elif got[1][:1] == "E":
                    stats["refused"] = stats.get("refused", 0) + 1
                for x in got[0]:
                    if x not in FREE.get(rec["k"], ()):
                        viol.append(["disturbs", "call %d under %s, %s, %s, changed the %s" % (
                            i, json.dumps(plan["cfg"]), K.describe(rec), "cut short by %s at point %d of %d" % (type(inj[0]).__name__, 1 + int(c[0] * n), n) if inj else "which " + (
                                "raised " + got[1][1:] if got[1][:1] == "E" else "returned"), x)])
            if len(viol) > 3:
                break
        a.done()
    finally:
        engine.monitor(boot.ALL_CODE, line=False, interrupts=False)
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
    return {"violations": viol[:4], "key": json.dumps([plan["cfg"], [[K.key_of(r), c] for r, c in plan["ops"]]]), "stats": stats, "simtime": 0.0, "nontrivial": True}


def execute_child(plan, want):
    env = dict(os.environ)
    env.update(plan["child"])
    if LOCPATH:
        env["LOCPATH"] = LOCPATH
    env["LC_ALL"] = env["LANG"]
    r = subprocess.run([boot.PYTHON, "-X", "utf8", os.path.join(os.path.dirname(ambient.HERE), "dst", "ambient_child.py")], input=json.dumps(plan["calls"]), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=100)
    line = [x for x in r.stdout.splitlines() if x.startswith("OUTCOMES ")]
    if not line:
        raise RuntimeError("child: " + r.stderr[-1500:])
    viol = []
    for rec, w, (st, got) in zip(plan["calls"], want, json.loads(line[0][9:])):
        if st == "ok" and unordered(got) != unordered(w) and not w.startswith("H"):
            viol.append(["depends", "in a process started with %s: %s" % (json.dumps(plan["child"]), K.diff_text(rec, got, w))])
    stats = {"calls": len(plan["calls"]), "ambient:process-images": 1}
    return {"violations": viol[:4], "key": json.dumps([plan["child"], [K.key_of(r) for r in plan["calls"]]]), "stats": stats, "simtime": 0.0, "nontrivial": True}


def unordered(o):
    """Error texts may print a set, in any order."""
    return o.split("{'")[0] if o[:1] == "E" else o


def shrink(plan):
    if "ops" in plan:
        for i in range(len(plan["ops"])):
            if len(plan["ops"]) > 1:
                yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
            r, cs = plan["ops"][i]
            for j in range(len(cs)):
                yield dict(plan, ops=plan["ops"][:i] + [[r, cs[:j] + cs[j + 1:]]] + plan["ops"][i + 1:])
        for k in plan["cfg"]:
            yield dict(plan, cfg={a: b for a, b in plan["cfg"].items() if a != k})
        return
    c = plan["calls"]
    n = len(c)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            q = c[:i] + c[i + size:]
            if q:
                p = dict(plan)
                p["calls"] = q
                yield p
        size //= 2
    for part in ("cfg", "child"):
        for k in list(plan.get(part, {})):
            if part == "child" and k == "PYTHONHASHSEED":
                continue
            p = dict(plan)
            p[part] = {a: b for a, b in plan[part].items() if a != k}
            yield p
