"""Geocode cache: only an address's own coordinates (C06); faults tolerated, entries kept (C07)."""
import copy
import hashlib
import json
import os
import sys
import types

from .. import engine, gsodsim as G, simsql

PROPERTY = "C06"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("a run is a history of address lookups over 1-2 processes with 1-3 threads sharing one cache file, with storage "
        "faults at any sqlite operation, kills, service failures, answers that change, and restarts; then quiet lookups in the same "
        "processes and lookups with the service down; non-trivial if two similar addresses were asked, a fault fired or tasks interleaved")
MEASURE = "distinct (lookups, context switches, faults, outcomes)"
REAL = ["geocode, SimpleGeolocatorCache, geopy_geolocator, geopy_cache", "sqlite on a real file"]
STUBS = ["geopy (simulated service)", "sqlite errors", "kill", "thread scheduling", "clock"]
ASSUMPTIONS = ["kill loses exactly the uncommitted transactions of that process"]
TIMEOUT = 60.0

FAMILIES = [
    ["01001", "1001", "1001.0", "+1001", " 1001", "1001 ", "1.001e3", "1_001"],
    ["1e3", "1000", "1000.0", "01000", "1E3", "10e2"],
    ["12345678901234567890", "12345678901234567891", "12345678901234567890.0"],
    ["0", "-0", "0.0", "00", "", " ", "0x0"],
    ["Paris", "paris", "PARIS", "Paris ", " Paris", "Paris, France", "Paris,France", "Paris\x00", "Paris\n"],
    ["S\u00e3o Paulo", "Sao Paulo", "Sa\u0303o Paulo", "S\u00e3o  Paulo", "s\u00e3o paulo"],
    ["O'Brien", 'O"Brien', "O''Brien", "O\\'Brien", "O%Brien", "O_Brien", "O?Brien", "O*Brien"],
    ["nan", "NaN", "null", "None", "inf", "-inf", "Infinity", "true", "1"],
    ["9007199254740993", "9007199254740992", "9007199254740993.0"],
    ["90210", "90210-0000", "90210, US", "090210", "\u0669\u0660\u0662\u0661\u0660"],
    ["Fredericton, NB", "Fredericton NB", "Fredericton, N.B.", "Frederictonn, NB", "Fredericton, nb"],
    ["5th Ave 10, New York", "5th Ave 100, New York", "5th Ave 1, New York", "x" * 300 + "a", "x" * 300 + "b"],
]
DBK = ["db-locked", "db-ioerr", "db-full", "db-readonly", "db-malformed", "db-cantopen"]


class Location:
    def __init__(self, address, lat, lon):
        self.address, self.latitude, self.longitude = address, lat, lon
        self.point = (lat, lon, 0.0)

    def __getitem__(self, i):
        return (self.address, (self.latitude, self.longitude))[i]


class ServiceError(Exception):
    pass


SERVICE = None


class Nominatim:
    def __init__(self, *a, **kw):
        pass

    def geocode(self, query, *a, **kw):
        return SERVICE.ask(query)


class Service:
    def __init__(self, unknown, faults):
        self.unknown = set(unknown)
        self.faults = {(f[0], f[1]) for f in faults}
        self.count = {}
        self.given = {}
        self.version = {}
        self.up = True
        self.calls = 0

    def coords(self, a):
        h = hashlib.sha256(("%d|" % self.version.get(a, 0)).encode() + a.encode("utf-8", "surrogatepass")).digest()
        lat = round(int.from_bytes(h[:4], "big") / 2**32 * 180 - 90, 6)
        lon = round(int.from_bytes(h[4:8], "big") / 2**32 * 360 - 180, 6)
        if h[8] < 40:
            lat = float(int(lat))
        return lat, lon

    def ask(self, a):
        s = engine.CURRENT
        t = s.me()
        s.point("service")
        n = self.count.get(t.id, 0)
        self.count[t.id] = n + 1
        self.calls += 1
        s.sleep(0.4)
        if not self.up:
            raise ServiceError("service unavailable")
        if (t.id, n) in self.faults:
            s.inject("service-error")
            raise ServiceError("timed out")
        if a in self.unknown:
            return None
        c = self.coords(a)
        self.given.setdefault(a, set()).add(c)
        return Location(a, *c)


def prepare(tier, seed):
    geopy = types.ModuleType("geopy")
    loc = types.ModuleType("geopy.location")
    gc = types.ModuleType("geopy.geocoders")
    exc = types.ModuleType("geopy.exc")
    loc.Location = Location
    gc.Nominatim = Nominatim
    exc.GeocoderServiceError = exc.GeopyError = exc.GeocoderTimedOut = exc.GeocoderUnavailable = ServiceError
    geopy.location, geopy.geocoders, geopy.exc, geopy.__path__ = loc, gc, exc, []
    geopy.Nominatim = Nominatim
    sys.modules.update({"geopy": geopy, "geopy.location": loc, "geopy.geocoders": gc, "geopy.exc": exc})
    simsql.install()
    G.prepare(6)


def generate(rng, idx):
    fams = rng.sample(FAMILIES, rng.choice([1, 1, 2]))
    addrs = [a for f in fams for a in rng.sample(f, min(len(f), rng.choice([2, 3, 4])))]
    unknown = [a for a in addrs if rng.random() < 0.12]
    kinds = set(k for k in ("preempt", "db", "kill", "service", "proc", "change") if rng.random() < 0.45)
    plan = {"addrs": addrs, "unknown": unknown, "initial": rng.choice(["none"] * 6 + ["garbage", "legacy", "nodir", "empty"]),
            "phases": [], "quiet": [], "new": rng.sample(["Quito", "00042", "42", "Lima"], rng.choice([1, 2]))}
    for ph in range(rng.choice([1, 1, 2])):
        nproc = 2 if "proc" in kinds else 1
        procs, tid = [], 0
        for p in range(nproc):
            tasks = []
            for _ in range(rng.choice([1, 1, 2]) if "preempt" in kinds else 1):
                ops = [["ask", rng.choice(addrs)] for _ in range(rng.choice([1, 2, 3, 5]))]
                if "change" in kinds and rng.random() < 0.4:
                    ops.insert(rng.randrange(len(ops)), [rng.choice(["move", "learn"]), rng.choice(addrs)])
                tasks.append(ops)
                tid += 1
            procs.append(tasks)
        phase = {"procs": procs, "preempt": [], "db": [], "service": []}
        if "preempt" in kinds and tid > 1:
            for _ in range(rng.choice([1, 2, 3, 4])):
                phase["preempt"].append([rng.randrange(tid), rng.randint(1, rng.choice([15, 40, 90])), rng.randrange(tid)])
        if "db" in kinds:
            for _ in range(rng.choice([1, 1, 2, 4])):
                phase["db"].append([rng.randrange(tid), rng.randint(0, rng.choice([6, 12, 25])), rng.choice(DBK)])
        if "kill" in kinds:
            phase["db"].append([rng.randrange(tid), rng.randint(0, rng.choice([8, 14])), "kill"])
        if "service" in kinds:
            phase["service"].append([rng.randrange(tid), rng.randint(0, 3)])
        plan["phases"].append(phase)
    return plan


def execute(plan, prop="C06"):
    global SERVICE
    w = G.World(plan)
    viol, outcomes = [], []
    os.chdir(w.root)
    os.makedirs(w.root + "/cfg", exist_ok=True)
    db = w.root + "/cfg/simple_geolocator_cache.sqlite3"
    svc = SERVICE = Service(plan["unknown"], ())
    if plan["initial"] == "garbage":
        with open(db, "wb") as f:
            f.write(b"this is not a database file at all" * 40)
    elif plan["initial"] == "empty":
        open(db, "wb").close()
    elif plan["initial"] == "nodir":
        db = w.root + "/nosuchdir/cache.sqlite3"
    elif plan["initial"] == "legacy":
        c = simsql._connect(db)
        c.execute("CREATE TABLE IF NOT EXISTS geopy ( address STRING PRIMARY KEY, latitude real, longitude real )")
        for a in ("Paris", "Fredericton, NB", "Berlin"):
            svc.given.setdefault(a, set()).add(svc.coords(a))
            c.execute("INSERT INTO geopy(address, latitude, longitude) VALUES(?, ?, ?)", (a,) + svc.coords(a))
        c.commit()
        c.close()
    usable = plan["initial"] not in ("garbage", "nodir")
    stored = {}            # address -> seq since when it must be answered offline
    sql = simsql.SQL = simsql.SimSQL()
    seq = [0]
    mode = {"quiet": False, "down": False}

    def cache_trouble(sim):
        return sum(n for k, n in sim.fired.items() if k.startswith("db-"))

    def body(w, inst, tid, j, op):
        dc = inst["fluids.design_climate"]
        dc.geolocator_disk_cache_loc = db
        if op[0] == "move":
            svc.version[op[1]] = svc.version.get(op[1], 0) + 1
            return
        if op[0] == "learn":
            svc.unknown.discard(op[1])
            return
        a = op[1]
        seq[0] += 1
        start = seq[0]
        t0, nat0 = cache_trouble(w.sim), sql.natural
        given0 = set(svc.given.get(a, ()))
        n0 = svc.count.get(tid, 0)
        known0 = a not in svc.unknown
        err0 = w.sim.fired.get("service-error", 0)
        try:
            v = dc.geocode(a)
        except Exception as e:
            outcomes.append([a, type(e).__name__])
            if prop == "C07":
                asked = svc.count.get(tid, 0) - n0
                failed = any((tid, n) in svc.faults for n in range(n0, n0 + asked))
                if known0 and svc.up and not failed:
                    viol.append(["cache-broke-lookup", "the service answers for %r but the lookup raised %s: %s"
                                 % (a, type(e).__name__, str(e)[:200])])
                elif a in stored and stored[a] < start and cache_trouble(w.sim) == t0 and usable:
                    viol.append(["stored-lost", "%r was stored but is not answered without the service (%s: %s)"
                                 % (a, type(e).__name__, str(e)[:120])])
            return
        seq[0] += 1
        trouble = cache_trouble(w.sim) != t0
        ok = isinstance(v, tuple) and len(v) == 2 and tuple(v) in svc.given.get(a, ())
        outcomes.append([a, "ok" if ok else "bad"])
        if not ok:
            whose = [b for b, cs in svc.given.items() if isinstance(v, tuple) and tuple(v) in cs]
            viol.append(["wrong-coordinates", "lookup of %r gave %r, the service gave %s for it (these belong to %s)"
                         % (a, v, sorted(svc.given.get(a, ())), whose[:3])])
        if prop == "C07":
            hit = svc.count.get(tid, 0) == n0
            if a in stored and stored[a] < start and not trouble and not hit:
                viol.append(["stored-lost", "%r was stored but the service was asked again" % a])
            if mode["quiet"] and usable and sql.natural > nat0:
                viol.append(["cache-wedged", "with faults stopped and nothing concurrent, storing %r fails: %s" % (a, sql.last)])
            if hit:
                w.stat("probe:cache-hit")
        if not trouble and usable:
            stored.setdefault(a, seq[0])
    try:
        for pi, ph in enumerate(plan["phases"]):
            sql.faults = {(f[0], f[1]): f[2] for f in ph["db"]}
            sql.count = {}
            svc.faults = {(f[0], f[1]) for f in ph["service"]}
            svc.count = {}
            first = w.next_inst
            sim = w.phase(ph["procs"], body, (), (), ph["preempt"])
            alive = [first + p for p in range(len(ph["procs"])) if p not in sim.dead_procs]
            # quiet: same live processes, one after another, new threads
            sql.faults, svc.faults = {}, set()
            mode["quiet"] = True
            for k, i in enumerate(alive):
                sql.count, svc.count = {}, {}
                w.next_inst = i
                w.phase([[[["ask", "%s %d" % (n, k) if k else n] for n in plan["new"]] + [["ask", a] for a in plan["addrs"][:3]]]], body)
            svc.up = False
            mode["down"] = True
            for i in alive:
                svc.count = {}
                w.next_inst = i
                down = [["ask", a] for a in sorted(stored)]
                if down:
                    w.phase([[down[::2], down[1::2]] if len(down) > 1 else [down]], body)
            svc.up = True
            mode["quiet"] = mode["down"] = False
            # these processes end here: locks are released, open transactions are lost
            for c in sql.conns:
                try:
                    simsql.sqlite3.Connection.close(c)
                except simsql.sqlite3.Error:
                    pass
            w.next_inst = first + len(ph["procs"])
        svc.up = False
        svc.count = {}
        mode["quiet"] = True
        down = [["ask", a] for a in sorted(stored)]
        if down:
            w.phase([[down]], body)
        svc.up = True
        svc.count = {}
        if w.next_inst < len(G.INST):
            w.phase([[[["ask", a] for a in plan["addrs"]]]], body)
        viol += [v for v in w.viol if v[0] != "non-ordinary-exception"]
        fired = {k: v for k, v in w.stats.items() if k.startswith("fault:")}
        w.stat("lookups", len(outcomes))
        w.stat("switches", sum(len(s) for s in w.switches))
        return {"violations": viol, "key": json.dumps([w.switches, fired, outcomes]), "stats": w.stats,
                "simtime": w.simtime, "nontrivial": True}
    finally:
        simsql.SQL = None
        os.chdir("/")
        w.close()


def shrink(plan):
    if plan["initial"] != "none":
        p = copy.deepcopy(plan)
        p["initial"] = "none"
        yield p
    for i, ph in enumerate(plan["phases"]):
        if len(plan["phases"]) > 1:
            p = copy.deepcopy(plan)
            del p["phases"][i]
            yield p
        for k in ("preempt", "db", "service"):
            for j in range(len(ph[k])):
                p = copy.deepcopy(plan)
                del p["phases"][i][k][j]
                yield p
        tid = 0
        for a, proc in enumerate(ph["procs"]):
            for b, ops in enumerate(proc):
                if sum(len(x) for x in ph["procs"]) > 1:
                    p = copy.deepcopy(plan)
                    q = p["phases"][i]
                    del q["procs"][a][b]
                    q["procs"] = [x for x in q["procs"] if x]
                    for k in ("preempt", "db", "service"):
                        q[k] = [[f[0] - (f[0] > tid)] + ([f[1], f[2] - (f[2] > tid)] if k == "preempt" else f[1:])
                                for f in q[k] if f[0] != tid and not (k == "preempt" and f[2] == tid)]
                    yield p
                for c in range(len(ops)):
                    if len(ops) > 1:
                        p = copy.deepcopy(plan)
                        del p["phases"][i]["procs"][a][b][c]
                        yield p
                tid += 1
    used = {o[1] for ph in plan["phases"] for pr in ph["procs"] for t in pr for o in t}
    for a in plan["addrs"]:
        if a not in used and len(plan["addrs"]) > 1:
            p = copy.deepcopy(plan)
            p["addrs"].remove(a)
            yield p
    if len(plan["new"]) > 1:
        p = copy.deepcopy(plan)
        p["new"].pop()
        yield p
    for a in plan["unknown"]:
        p = copy.deepcopy(plan)
        p["unknown"].remove(a)
        yield p
