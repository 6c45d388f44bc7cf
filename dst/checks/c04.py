"""First queries of the station table under races, faults and interrupts."""
import copy
import json
import os

from .. import boot, engine, gsodsim as G, tablesim as T

PROPERTY = "C04"
RUNS = {"quick": 5000, "thorough": 60000}
RULE = ("a run is 1-3 threads making 1-4 station-table queries each as the first use in a fresh process image, with "
        "preemptions inside the load, disk faults, and an interrupt or allocation failure at a random point, then a "
        "fault-free round of all queries; non-trivial if interleaved or a fault fired")
MEASURE = "distinct (context switches, faults, outcomes)"
REAL = ["_load_station_data and all accessors", "scipy cKDTree", "file I/O"]
STUBS = ["thread scheduling", "disk faults", "content of the station table (small generated table)"]
ASSUMPTIONS = ["interrupts arrive where CPython delivers signals"]
DATA = os.path.join(boot.PKG, "data")


def prepare(tier, seed):
    G.prepare(3, interrupts=True)


def generate(rng, idx):
    n = rng.choice([4, 8, 15])
    nt = rng.choice([1, 2, 2, 3, 3])
    tasks = [[T.random_query(rng) for _ in range(rng.choice([1, 1, 2, 4]))] for _ in range(nt)]
    mode = rng.choice(["race", "race", "fault", "both"])
    plan = {"rows": n, "seed": rng.randrange(1 << 30), "tasks": tasks, "preempt": [], "disk": [], "interrupts": [],
            "heal": [T.random_query(rng) for _ in range(rng.choice([1, 2]))], "heal_preempt": []}
    per = n * 60
    if mode in ("race", "both") and nt > 1:
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            t = rng.randrange(nt)
            r = rng.random()
            if r < 0.5:
                s = rng.randint(1, per + 40)
            elif r < 0.75:
                s = rng.randint(max(1, per - 60), per + 60)
            else:
                s = rng.randint(1, 40)
            plan["preempt"].append([t, s, rng.randrange(nt)])
    if mode in ("fault", "both"):
        for _ in range(rng.choice([1, 1, 2])):
            t = rng.randrange(nt)
            if rng.random() < 0.45:
                plan["disk"].append([t, rng.randint(0, 6), rng.choice(["eio", "eacces", "emfile"])])
            else:
                plan["interrupts"].append([t, rng.randint(1, rng.choice([10, n * 25, n * 45])), rng.choice(["int", "mem"])])
    engine.with_stalls(rng, plan["preempt"])
    return plan


def execute(plan):
    w = G.World(plan)
    viol = []
    rows = T.make_rows(plan["seed"], plan["rows"], "A")
    while len(T.expected(rows)) < 3:
        rows += T.make_rows(plan["seed"] + len(rows), 4, "B")
    exp = T.expected(rows)
    w.fs.alias = [(DATA + "/", w.root + "/data/")]
    w.fs.setup_file(w.root + "/data/isd-history-cleaned.tsv", T.table_text(rows).encode())
    outcomes = []
    heal = [False]

    def body(w, inst, tid, j, op):
        dc = inst["fluids.design_climate"]
        fired0 = sum(w.sim.fired.values())
        sw0 = len(w.sim.switches)
        try:
            bad = T.check_query(dc, op, [exp])
        except (Exception, KeyboardInterrupt) as e:
            outcomes.append([tid, j, type(e).__name__])
            if heal[0]:
                viol.append(["not-recovered", "with no fault left, %s raised %s: %s" % (op, type(e).__name__, str(e)[:200])])
            elif sum(w.sim.fired.values()) == 0:
                viol.append(["raises", "%s raised %s without any fault: %s" % (op, type(e).__name__, str(e)[:200])])
            else:
                w.stat("probe:query-raised-on-fault")
            return
        outcomes.append([tid, j, "ok"])
        if len(w.sim.switches) != sw0:
            w.stat("probe:preempted-inside-query")
        if bad:
            viol.append(["incomplete" if not heal[0] else "not-recovered", "%s: %s" % (op, bad)])
    try:
        w.phase([plan["tasks"]], body, plan["disk"], (), plan["preempt"], interrupts=plan["interrupts"])
        # same process image, faults gone
        heal[0] = True
        w.next_inst = 0
        allq = [["count"], ["list"], ["latlongs"], ["tree"], ["consistent"]]
        w.phase([[plan["heal"] + allq]], body)
        viol += [v for v in w.viol if v[0] != "non-ordinary-exception"]
        fired = {k: v for k, v in w.stats.items() if k.startswith("fault:")}
        w.stat("switches", sum(len(s) for s in w.switches))
        w.stat("queries", len(outcomes))
        return {"violations": viol, "key": json.dumps([w.switches, fired, outcomes]), "stats": w.stats,
                "simtime": 0.0, "nontrivial": bool(fired) or any(w.switches)}
    finally:
        w.close()


def shrink(plan):
    for k in ("preempt", "disk", "interrupts"):
        for j in range(len(plan[k])):
            p = copy.deepcopy(plan)
            del p[k][j]
            yield p
    for i in range(len(plan["tasks"])):
        if len(plan["tasks"]) > 1:
            p = copy.deepcopy(plan)
            del p["tasks"][i]
            for k in ("preempt", "disk", "interrupts"):
                p[k] = [[f[0] - (f[0] > i)] + (f[1:] if k != "preempt" else [f[1], f[2] - (f[2] > i)])
                        for f in p[k] if f[0] != i and not (k == "preempt" and f[2] == i)]
            yield p
        for j in range(len(plan["tasks"][i])):
            if len(plan["tasks"][i]) > 1:
                p = copy.deepcopy(plan)
                del p["tasks"][i][j]
                yield p
    for j in range(len(plan["heal"])):
        p = copy.deepcopy(plan)
        del p["heal"][j]
        yield p
    if plan["rows"] > 4:
        p = copy.deepcopy(plan)
        p["rows"] = 4
        yield p
