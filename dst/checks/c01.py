import json

from .. import gsodsim as G

PROPERTY = "C01"
RUNS = {"quick": 6000, "thorough": 60000}
RULE = ("a run is a plan of 1-3 phases of 1-2 processes with 1-3 threads of station-year lookups over one data "
        "directory, with preemptions, network faults, disk faults, kills and power loss drawn from the seed; "
        "non-trivial if a fault fired or two tasks were interleaved")
MEASURE = "distinct (taken context switches, fired faults, outcomes) per run"
REAL = ["fluids.design_climate.get_station_year_text and everything it calls", "gzip, io buffering, os on a real scratch directory"]
STUBS = ["urllib.request.urlopen (simulated archive)", "power loss and kill (shadow file system)", "clock", "thread scheduling"]
ASSUMPTIONS = ["rename is atomic; directory operations reach the disk in order; un-synced data may be lost, empty or a prefix",
               "preemption at line boundaries of library code and at every I/O call"]
TIMEOUT = 60.0

NETK = ["refuse", "dns", "stall", "busy", "reset", "stall-body", "empty", "truncate", "corrupt", "empty-gzip", "html"]
DISKK = ["enospc", "eio", "eacces", "emfile", "short"]


def prepare(tier, seed):
    G.prepare(9)


def generate(rng, idx):
    nst = rng.choice([1, 1, 1, 2, 2, 3])
    stations = rng.sample(G.STATIONS, nst)
    years = rng.sample([1999, 2000, 2001], rng.choice([1, 1, 2]))
    lines = rng.choice([1, 3, 60, 140, 300])
    modes = rng.choice([[0], [0], [1], [0, 1]])
    kinds = set(k for k in ("preempt", "net", "disk", "kill", "power", "proc") if rng.random() < 0.55)
    if not kinds:
        kinds = {"preempt"}
    netk = [k for k in NETK if rng.random() < 0.5] or NETK
    diskk = [k for k in DISKK if rng.random() < 0.6] or DISKK
    unpub = rng.random() < 0.25
    initial = []
    for si in range(nst):
        for y in years:
            if rng.random() < 0.25:
                initial.append([si, y, rng.choice(modes), rng.choice(["good", "marker", "empty"])])
    plan = {"stations": stations, "years": years, "lines": lines, "strict": rng.random() < 0.7,
            "unpublished": [rng.randrange(nst), rng.choice(years)] if unpub else None,
            "initial": initial, "phases": [], "heal": rng.choice([1, 2]), "heal_preempt": [],
            "heal_same": rng.random() < 0.7, "late": rng.random() < 0.5}
    for ph in range(rng.choice([1, 1, 2, 3]) if (kinds & {"kill", "power", "net", "disk"}) else 1):
        nproc = 2 if "proc" in kinds and rng.random() < 0.6 else 1
        procs = []
        ntask = 0
        for p in range(nproc):
            tasks = []
            for _ in range(rng.choice([1, 1, 2, 2, 3]) if nproc == 1 else rng.choice([1, 1, 2])):
                tasks.append([["get", stations[rng.randrange(nst)], rng.choice(years), rng.choice(modes)]
                              for _ in range(rng.choice([1, 1, 2]))])
                ntask += 1
            procs.append(tasks)
        phase = {"procs": procs, "disk": [], "net": [], "preempt": [], "publish": rng.random() < 0.2}
        if "preempt" in kinds and ntask > 1:
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                t = rng.randrange(ntask)
                phase["preempt"].append([t, rng.randint(1, rng.choice([12, 40, 90])), rng.randrange(ntask)])
        if "net" in kinds:
            for _ in range(rng.choice([0, 1, 1, 2])):
                phase["net"].append([rng.randrange(ntask), rng.randint(0, 3), rng.choice(netk)])
        if "disk" in kinds:
            for _ in range(rng.choice([0, 1, 1, 2])):
                phase["disk"].append([rng.randrange(ntask), rng.randint(0, rng.choice([8, 16, 30])), rng.choice(diskk)])
        if "kill" in kinds and rng.random() < 0.7:
            phase["disk"].append([rng.randrange(ntask), rng.randint(0, rng.choice([10, 18, 30])),
                                  rng.choice(["kill", "kill", "torn-kill"])])
            if rng.random() < 0.15:
                phase["net"].append([rng.randrange(ntask), rng.randint(0, 2), "kill"])
        if "power" in kinds and rng.random() < 0.6:
            phase["disk"].append([rng.randrange(ntask), rng.randint(2, rng.choice([12, 18, 30])), "power", rng.randrange(1 << 30)])
        plan["phases"].append(phase)
    for _ in range(rng.choice([0, 1, 2, 3])):
        plan["heal_preempt"].append([rng.randrange(2), rng.randint(1, 60), rng.randrange(2)])
    return plan


def run_world(plan):
    w = G.World(plan)
    for si, st in enumerate(plan["stations"]):
        for y in plan["years"]:
            if plan["unpublished"] != [si, y]:
                w.publish(st, y, 0, plan["lines"])
    keys = []
    for si, y, mode, what in plan["initial"]:
        k = G.station_key(plan["stations"][si])
        path = "%s/%d/%s.op" % (w.cache_dir(mode), y, k)
        pub = w.archive.get((k, y))
        if what == "good":
            if not pub:
                continue
            w.fs.setup_file(path, pub[0].encode())
            keys.append((k, y, mode))
        else:
            w.fs.setup_file(path, b"Exception" if what == "marker" else b"")
    acked = {}          # key -> seq at which it became available for good
    for k in keys:
        acked[k] = 0
    w.acked = acked
    return w


def update_acked(w, ops):
    """History check for availability (used by C02) and collection of acknowledged keys."""
    lost = []
    for r in ops:
        k = (G.station_key(r["op"][1]), r["op"][2], r["op"][3])
        if r["ok"] is False and not r["disk_fault"] and k in w.acked and w.acked[k] < r["start"]:
            lost.append(r)
        if r["ok"] and not r["disk_fault"]:
            w.acked.setdefault(k, r["end"])
    return lost


def check_texts(w, ops, viol):
    for r in ops:
        if r["ok"]:
            if not isinstance(r["value"], str):
                viol.append(["wrong-text", "lookup %s returned %s" % (r["op"][1:], G.describe(r["value"]))])
            elif not G.is_published(w, r["op"], r["value"]):
                viol.append(["wrong-text", "lookup %s returned %s, which the archive never published for it"
                             % (r["op"][1:], G.describe(r["value"]))])


def check_healed(w, n0, prop, viol):
    check_texts(w, w.ops[n0:], viol)
    if prop == "C02":
        for r in w.ops[n0:]:
            pub = w.archive.get((G.station_key(r["op"][1]), r["op"][2]))
            if not r["ok"] and pub:
                viol.append(["not-recovered", "faults have stopped but lookup %s still fails: %s"
                             % (r["op"][1:], r.get("exc"))])


def execute(plan, prop="C01"):
    w = run_world(plan)
    viol = []
    try:
        ver = 1
        for ph in plan["phases"]:
            n0 = len(w.ops)
            w.power_lost = False
            if ph.get("publish"):
                for si, st in enumerate(plan["stations"]):
                    for y in plan["years"]:
                        if plan["unpublished"] != [si, y]:
                            w.publish(st, y, ver, plan["lines"])
                ver += 1
            sim = w.phase(ph["procs"], G.get_body, ph["disk"], ph["net"], ph["preempt"])
            ops = sorted(w.ops[n0:], key=lambda r: r["end"] or 1 << 60)
            check_texts(w, ops, viol)
            if prop == "C02":
                for r in update_acked(w, ops):
                    viol.append(["acknowledged-lost", "lookup %s failed (%s) although it had been returned before"
                                 % (r["op"][1:], r["exc"])])
                if not ph["disk"] and not ph["net"]:
                    for r in ops:
                        if not r["ok"] and w.archive.get((G.station_key(r["op"][1]), r["op"][2])):
                            viol.append(["fault-free-failure", "lookup %s failed without any fault: %s" % (r["op"][1:], r.get("exc"))])
            if w.power_lost:
                w.acked.clear()
        survivors = w.survivors
        if plan.get("late") and plan["unpublished"]:
            # what the archive did not have is published now
            si, y = plan["unpublished"]
            w.publish(plan["stations"][si], y, ver, plan["lines"])
        # faults stop: fresh processes, archive first down (acknowledged keys only), then up
        heal_ops = [["get", st, y, m] for st in plan["stations"] for y in plan["years"]
                    for m in sorted({o[3] for ph in plan["phases"] for p in ph["procs"] for t in p for o in t})]
        if prop == "C02":
            down = [o for o in heal_ops if (G.station_key(o[1]), o[2], o[3]) in w.acked]
            if down:
                n0 = len(w.ops)
                w.phase([[down]], G.get_body, (), (), (), net_up=False)
                for r in w.ops[n0:]:
                    if not r["ok"]:
                        viol.append(["acknowledged-lost", "with the archive down, lookup %s failed after a restart: %s"
                                     % (r["op"][1:], r.get("exc"))])
                    else:
                        w.stats["probe:served-offline"] = w.stats.get("probe:served-offline", 0) + 1
                check_texts(w, w.ops[n0:], viol)
        if plan.get("heal_same") and survivors:
            # the processes which met the faults go on first
            n0 = len(w.ops)
            w.phase([[heal_ops] for _ in survivors], G.get_body, (), (), (), insts=survivors)
            w.stats["probe:healed-in-same-process"] = w.stats.get("probe:healed-in-same-process", 0) + 1
            check_healed(w, n0, prop, viol)
        n0 = len(w.ops)
        w.phase([[heal_ops for _ in range(plan["heal"])]], G.get_body, (), (), plan["heal_preempt"])
        check_healed(w, n0, prop, viol)
        if prop == "C02":
            for r in w.ops:
                if r["end"] is not None and r["t1"] - r["t0"] > 900:
                    viol.append(["unbounded-wait", "lookup %s took %.0f simulated seconds" % (r["op"][1:], r["t1"] - r["t0"])])
            viol += [v for v in w.viol if v[0] in ("unbounded-wait", "deadlock", "no-progress")]
        else:
            viol += [v for v in w.viol if v[0] == "non-ordinary-exception"]
            # nothing unpublished is ever returned, checked above
        outcomes = [[r["ok"], r.get("exc", "")[:40]] for r in w.ops]
        fired = {k: v for k, v in w.stats.items() if k.startswith("fault:")}
        w.stats["lookups"] = len(w.ops)
        w.stats["switches"] = sum(len(s) for s in w.switches)
        return {"violations": viol, "key": json.dumps([w.switches, fired, outcomes]), "stats": w.stats,
                "simtime": w.simtime, "nontrivial": bool(fired) or any(w.switches)}
    finally:
        w.close()


def shrink(plan):
    import copy
    for i in range(len(plan["phases"])):
        if len(plan["phases"]) > 1:
            p = copy.deepcopy(plan)
            del p["phases"][i]
            yield p
    for i, ph in enumerate(plan["phases"]):
        for key in ("disk", "net", "preempt"):
            for j in range(len(ph[key])):
                p = copy.deepcopy(plan)
                del p["phases"][i][key][j]
                yield p
        if ph.get("publish"):
            p = copy.deepcopy(plan)
            p["phases"][i]["publish"] = False
            yield p
        # drop a task (renumbering the others)
        tid = 0
        for a, proc in enumerate(ph["procs"]):
            for b, ops in enumerate(proc):
                if sum(len(x) for x in ph["procs"]) > 1:
                    p = copy.deepcopy(plan)
                    del p["phases"][i]["procs"][a][b]
                    if not p["phases"][i]["procs"][a]:
                        del p["phases"][i]["procs"][a]
                    for key in ("disk", "net", "preempt"):
                        out = []
                        for f in p["phases"][i][key]:
                            if f[0] == tid:
                                continue
                            f = list(f)
                            if f[0] > tid:
                                f[0] -= 1
                            if key == "preempt":
                                if f[2] == tid:
                                    continue
                                if f[2] > tid:
                                    f[2] -= 1
                            out.append(f)
                        p["phases"][i][key] = out
                    yield p
                for c in range(len(ops)):
                    if len(ops) > 1:
                        p = copy.deepcopy(plan)
                        del p["phases"][i]["procs"][a][b][c]
                        yield p
                tid += 1
    for j in range(len(plan["initial"])):
        p = copy.deepcopy(plan)
        del p["initial"][j]
        yield p
    for j in range(len(plan["heal_preempt"])):
        p = copy.deepcopy(plan)
        del p["heal_preempt"][j]
        yield p
    if plan["heal"] > 1:
        p = copy.deepcopy(plan)
        p["heal"] = 1
        yield p
    if len(plan["years"]) > 1:
        used = {o[2] for ph in plan["phases"] for pr in ph["procs"] for t in pr for o in t}
        for y in plan["years"]:
            if y not in used:
                p = copy.deepcopy(plan)
                p["years"].remove(y)
                p["initial"] = [x for x in p["initial"] if x[1] != y]
                yield p
    if plan["lines"] > 1:
        for n in (1, 3, 60):
            if n < plan["lines"]:
                p = copy.deepcopy(plan)
                p["lines"] = n
                yield p
