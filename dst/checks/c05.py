"""Rebuilding the station table: all or nothing, under readers, faults, kills and power loss."""
import copy
import json
import os

from .. import boot, gsodsim as G, simfs, simnet, tablesim as T

PROPERTY = "C05"
RUNS = {"quick": 2500, "thorough": 25000}
RULE = ("a run is 1-2 phases of one or two processes rebuilding the table (from a URL or a local file) while threads and "
        "processes read it, with network faults, disk faults, kills and power loss; non-trivial if a fault fired or tasks "
        "were interleaved")
MEASURE = "distinct (context switches, faults, outcomes)"
REAL = ["get_clean_isd_history", "pandas read_csv/to_csv", "_load_station_data", "file I/O"]
STUBS = ["thread and process scheduling", "disk faults, kill and power loss", "network", "clock"]
ASSUMPTIONS = ["rename is atomic; a torn HTTP transfer is reported by the transport"]
DATA = os.path.join(boot.PKG, "data")
TIMEOUT = 90.0


def prepare(tier, seed):
    G.prepare(6, preload=("pandas", "pandas.io.parsers", "pandas.io.formats.csvs"))
    import io
    import pandas as pd
    pd.read_csv(io.StringIO("a,b\n1,2\n")).to_csv(io.StringIO())


def generate(rng, idx):
    n = rng.choice([4, 10, 10, 150])
    plan = {"rows": n, "seed": rng.randrange(1 << 30), "strict": rng.random() < 0.7, "initial": rng.random() < 0.85,
            "phases": [], "source": rng.choice(["url", "file"])}
    kinds = set(k for k in ("preempt", "net", "disk", "kill", "power") if rng.random() < 0.55) or {"preempt"}
    for ph in range(rng.choice([1, 1, 2])):
        procs = []
        nproc = rng.choice([1, 2])
        tid = 0
        for p in range(nproc):
            tasks = []
            for _ in range(rng.choice([1, 2])):
                if tid == 0 or rng.random() < 0.3:
                    tasks.append([["rebuild", rng.choice([1, 2])]])
                else:
                    tasks.append([rng.choice([["list"], ["count"], ["file"]]) for _ in range(rng.choice([1, 2]))])
                tid += 1
            procs.append(tasks)
        phase = {"procs": procs, "preempt": [], "disk": [], "net": []}
        if "preempt" in kinds:
            for _ in range(rng.choice([1, 2, 3])):
                phase["preempt"].append([rng.randrange(tid), rng.randint(1, rng.choice([8, 20, 40])), rng.randrange(tid)])
        if "net" in kinds:
            phase["net"].append([rng.randrange(tid), rng.randint(0, 2), rng.choice(["refuse", "dns", "reset", "busy"])])
        if "disk" in kinds:
            phase["disk"].append([rng.randrange(tid), rng.randint(0, rng.choice([6, 14])), rng.choice(["enospc", "eio", "eacces", "short"])])
        if "kill" in kinds:
            phase["disk"].append([0 if rng.random() < 0.7 else rng.randrange(tid), rng.randint(0, rng.choice([8, 14])), rng.choice(["kill", "torn-kill"])])
        if "power" in kinds and rng.random() < 0.6:
            phase["disk"].append([0 if rng.random() < 0.7 else rng.randrange(tid), rng.randint(0, rng.choice([8, 14])), "power", rng.randrange(1 << 30)])
        plan["phases"].append(phase)
    return plan


def execute(plan):
    w = G.World(plan)
    viol, outcomes = [], []
    versions = []
    for v in range(3):
        r = T.make_rows(plan["seed"], plan["rows"], "V%d" % v)
        while len(T.expected(r)) < 3:
            r += T.make_rows(plan["seed"] + len(r), 4, "W%d" % v)
        versions.append(r)
    w.fs.alias = [(DATA + "/", w.root + "/data/")]
    dest_real = os.path.join(DATA, "isd-history-cleaned.tsv")
    dest = w.root + "/data/isd-history-cleaned.tsv"
    src = {v: w.root + "/src/history-%d.csv" % v for v in (1, 2)}
    os.makedirs(w.root + "/data", exist_ok=True)
    for v in (1, 2):
        w.fs.setup_file(src[v], T.csv_text(versions[v]).encode())
    # expected file contents: an undisturbed rebuild into another directory
    dc0 = G.INST[-1]["fluids.design_climate"]
    boot.activate(G.INST[-1])
    good = {}
    for v in (1, 2):
        ref = w.root + "/ref-%d.tsv" % v
        dc0.get_clean_isd_history(dest=ref, url=src[v])
        with simfs._open(ref, "rb") as f:
            good[v] = f.read()
        os.remove(ref)
    good[0] = T.table_text(versions[0]).encode()
    exps = {v: T.expected(versions[v]) for v in range(3)}
    allowed = {None}            # versions the file may hold now (None: absent)
    if plan["initial"]:
        w.fs.setup_file(dest, good[0])
        allowed = {0}
    ever = set(allowed)

    def state():
        try:
            with simfs._open(dest, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def classify(data):
        if data is None:
            return None
        for v, t in good.items():
            if data == t:
                return v
        return "other"

    def handler(url):
        v = 2 if "second" in url else 1
        return T.csv_text(versions[v]).encode()

    running = {}

    def body(w, inst, tid, j, op):
        dc = inst["fluids.design_climate"]
        d0, f0 = G.disk_faults(w.sim), sum(w.sim.fired.values())
        if op[0] == "rebuild":
            running[tid] = op[1]
            url = src[op[1]] if plan["source"] == "file" else "https://www.ncei.noaa.gov/pub/data/noaa/%s/isd-history.csv" % (
                "first" if op[1] == 1 else "second")
            try:
                dc.get_clean_isd_history(dest=dest_real, url=url)
            except Exception as e:
                outcomes.append([tid, j, type(e).__name__])
                if sum(w.sim.fired.values()) == f0 and not any(k == "power-loss" for k in w.sim.fired):
                    viol.append(["raises", "rebuild raised %s without a fault: %s" % (type(e).__name__, str(e)[:200])])
                return
            outcomes.append([tid, j, "ok"])
            c = classify(state())
            others = {v for t, v in running.items() if t != tid}
            if c != op[1] and c not in others:
                viol.append(["not-in-place", "rebuild returned but the table file is %s" % (
                    "missing" if c is None else "version %s" % c)])
            return
        if op[0] == "file":
            c = classify(state())
            if c == "other" or (c is None and None not in allowed):
                viol.append(["torn", "the table file was seen %s" % ("missing" if c is None else "incomplete")])
            return
        try:
            bad = T.check_query(dc, op, [exps[v] for v in range(3)])
        except Exception as e:
            outcomes.append([tid, j, type(e).__name__])
            if sum(w.sim.fired.values()) == f0 and None not in allowed:
                viol.append(["raises", "%s raised %s without any fault: %s" % (op, type(e).__name__, str(e)[:200])])
            return
        outcomes.append([tid, j, "ok"])
        if bad:
            viol.append(["torn", "reader during a rebuild: %s" % bad])

    real_net = simnet.SimNet
    try:
        def mk(archive, faults=()):
            n = real_net(archive, faults)
            n.handler = handler
            return n
        simnet.SimNet = mk
        for ph in plan["phases"]:
            running.clear()
            w.phase(ph["procs"], body, ph["disk"], ph["net"], ph["preempt"])
            c = classify(state())
            may = allowed | set(running.values())
            if None in ever:
                may.add(1)           # a reader without a table rebuilds it from the default address
            if w.power_lost:
                may |= ever          # a rename that had not reached the disk is undone
            ever |= may
            if c == "other":
                viol.append(["torn", "after the %s the table file is neither the old nor a new table (%d bytes)"
                             % ("crash or fault" if ph["disk"] or ph["net"] else "rebuild", len(state()))])
            elif c not in may and not (c is None and w.power_lost and not plan["initial"]):
                viol.append(["torn", "the table file holds %s, possible are %s" % (c, sorted(map(str, may)))])
            allowed = {c}
            w.power_lost = False
        # a fresh process reads it
        if None not in allowed and "other" not in allowed:
            def final(w, inst, tid, j, op):
                bad = T.check_query(inst["fluids.design_climate"], op, [exps[v] for v in allowed])
                if bad:
                    viol.append(["torn", "after restart: %s" % bad])
            w.phase([[[["list"], ["count"], ["tree"]]]], final)
        viol += [v for v in w.viol if v[0] != "non-ordinary-exception"]
        fired = {k: v for k, v in w.stats.items() if k.startswith("fault:")}
        w.stat("rebuilds", sum(o[0] == "rebuild" for ph in plan["phases"] for p in ph["procs"] for t in p for o in t))
        return {"violations": viol, "key": json.dumps([w.switches, fired, outcomes]), "stats": w.stats,
                "simtime": w.simtime, "nontrivial": bool(fired) or any(w.switches)}
    finally:
        simnet.SimNet = real_net
        w.close()


def shrink(plan):
    for i, ph in enumerate(plan["phases"]):
        if len(plan["phases"]) > 1:
            p = copy.deepcopy(plan)
            del p["phases"][i]
            yield p
        for k in ("preempt", "disk", "net"):
            for j in range(len(ph[k])):
                p = copy.deepcopy(plan)
                del p["phases"][i][k][j]
                yield p
        if sum(len(p) for p in ph["procs"]) > 1:
            p = copy.deepcopy(plan)
            if len(p["phases"][i]["procs"][-1]) > 1:
                p["phases"][i]["procs"][-1].pop()
            else:
                p["phases"][i]["procs"].pop()
            n = sum(len(x) for x in p["phases"][i]["procs"])
            for k in ("preempt", "disk", "net"):
                p["phases"][i][k] = [f for f in p["phases"][i][k] if f[0] < n and not (k == "preempt" and f[2] >= n)]
            yield p
    for n in (4, 10):
        if plan["rows"] > n:
            p = copy.deepcopy(plan)
            p["rows"] = n
            yield p
    if plan["source"] == "url":
        p = copy.deepcopy(plan)
        p["source"] = "file"
        yield p
