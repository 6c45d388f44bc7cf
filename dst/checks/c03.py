"""Station records: only obtained years, every published day in its slot, retry fills gaps."""
import copy
import datetime
import json
import random

from .. import gsodsim as G, engine, simnet

PROPERTY = "C03"
RUNS = {"quick": 4000, "thorough": 40000}
RULE = ("a run is a random station period (1-5 years), a pattern of published and unpublished years and days, faults "
        "attributed to single years and attempts, and a history of create/download/parse/publish/query operations "
        "over restarts sharing a data directory; non-trivial if a year failed or was filled in later")
MEASURE = "distinct (operations, held years after each, fired faults)"
REAL = ["StationDataGSOD", "get_station_year_text", "gsod_day_parser", "io, gzip"]
STUBS = ["archive (urllib.request.urlopen)", "disk faults", "clock"]
ASSUMPTIONS = ["published files end with a newline"]
TIMEOUT = 60.0
KINDS = ["refuse", "dns", "stall", "busy", "reset", "stall-body", "empty", "truncate", "corrupt", "empty-gzip", "html"]


def prepare(tier, seed):
    G.prepare(5, line=False)


def day_lines(station, year, rng, density, missing, order):
    wmo, wban = station.split("-")
    n = 366 if year % 4 == 0 and (year % 100 != 0 or year % 400 == 0) else 365
    days = [d for d in range(n) if rng.random() < density]
    if rng.random() < 0.5:
        days = sorted(set(days) | {n - 1, 59, 0})
    if order:
        rng.shuffle(days)
    out, exp = [G.HEADER], {}
    for d in days:
        dt = datetime.datetime(year, 1, 1) + datetime.timedelta(days=d)
        t = None if rng.random() < missing else round(rng.uniform(-30, 110), 1)
        wd = None if rng.random() < missing else round(rng.uniform(0, 40), 1)
        out.append("%6s %5s  %s  %6.1f 24  %6.1f 24  9999.9  0  9999.9  0  999.9  0  %5.1f 24  %5.1f  %5.1f  %6.1f%s %6.1f  "
                   "%5.2fG %5.1f  %s\n"
                   % (wmo, wban, dt.strftime("%Y%m%d"), 9999.9 if t is None else t, 30.0, 999.9 if wd is None else wd, 12.0, 999.9,
                      60.0, rng.choice("* "), 20.0, rng.randint(0, 90) / 100, 999.9, "".join(rng.choice("01") for _ in range(6))))
        exp[d] = (dt, None if t is None else (t + 459.67) * 5.0 / 9.0, None if wd is None else wd * 0.514444444444444444)
    return "".join(out), exp


def generate(rng, idx):
    y0 = rng.choice([1995, 1999, 2003, 2000, 2096])
    ny = rng.choice([1, 2, 3, 3, 5])
    years = list(range(y0, y0 + ny))
    st = rng.choice([[724050, "13743"], [712650, None], [None, "00103"]])
    faulty = rng.random() < 0.75
    ops = []
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.22:
            ops.append(["download"])
        elif r < 0.44:
            ops.append(["parse"])
        elif r < 0.56:
            ops.append(["publish", rng.choice(years)])
        elif r < 0.64:
            ops.append(["update", rng.choice(years)])
        elif r < 0.70:
            ops.append(["create"])
        elif r < 0.78 and any(len(o) == 5 for o in ops):
            # an earlier question again, now that the record may hold more
            q = list(rng.choice([o for o in ops if len(o) == 5]))
            if rng.random() < 0.6:
                ops += [["publish", rng.choice(years)] for _ in range(rng.choice([0, 1, 2]))] + [["download"], ["parse"]]
            if rng.random() < 0.3:
                q[0] = rng.choice(["temp", "wind", "cold", "warm"])
            if rng.random() < 0.2:
                q[3 + (rng.random() < 0.5)] = rng.choice([1, 5])
            q[4] = bool(q[4])
            ops.append(q)
        else:
            a = rng.choice(years)
            b = rng.choice(years + [y0 - 1, y0 + ny])
            if rng.random() < 0.4:
                a, b = years[0], years[-1]
            ops.append([rng.choice(["temp", "wind", "cold", "warm"]), min(a, b), max(a, b), rng.choice([23, 1, 10, 5]),
                        rng.random() < 0.5])
    plan = {"st": st, "years": years, "begin": "%d%02d%02d" % (y0, rng.randint(1, 12), rng.randint(1, 28)),
            "end": "%d%02d%02d" % (y0 + ny - 1, rng.randint(1, 12), rng.randint(1, 28)),
            "unpublished": [y for y in years if rng.random() < 0.25],
            "density": rng.choice([0.1, 0.8, 0.95, 1.0]), "missing": rng.choice([0.0, 0.1, 0.4]),
            "shuffle": rng.random() < 0.15, "data_seed": rng.randrange(1 << 30),
            "net": [], "disk": [], "phases": [[["create"]] + ops]}
    if rng.random() < 0.4:
        plan["phases"].append([["create"]] + [["temp", years[0], years[-1], 1, False], ["download"], ["parse"],
                                              ["wind", years[0], years[-1], 5, True]])
    if faulty:
        kinds = [k for k in KINDS if rng.random() < 0.5] or KINDS
        for y in years:
            if rng.random() < 0.4:
                for a in range(rng.choice([1, 1, 2])):
                    plan["net"].append([y, a, rng.choice(kinds)])
        if rng.random() < 0.25:
            plan["disk"].append([0, 0, rng.randint(0, 40), rng.choice(["eio", "enospc", "eacces"])])
    return plan


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def model_months(parsed, which, a, b, mind):
    """{year: {doy: (date, T, wind)}} -> (list of 12 or None where no year qualifies, per-year lists)"""
    per = {}
    for y, days in parsed.items():
        if not a <= y <= b:
            continue
        sums = [[0.0, 0] for _ in range(12)]
        for d, rec in days.items():
            v = rec[which]
            if v is not None:
                sums[rec[0].month - 1][0] += v
                sums[rec[0].month - 1][1] += 1
        per[y] = [s / n if n >= mind else None for s, n in [(s, n) if n else (0.0, 0) for s, n in sums]] if mind > 0 else None
    tot = []
    for m in range(12):
        vs = [per[y][m] for y in per if per[y][m] is not None]
        tot.append(sum(vs) / len(vs) if vs else None)
    return tot, per


def execute(plan):
    w = G.World(plan)
    viol = []
    hist = []
    versions = {}          # year -> [(text, exp)]
    drng = random.Random(plan["data_seed"])
    key = G.station_key(plan["st"])
    for y in plan["years"]:
        versions[y] = [day_lines(key, y, drng, plan["density"], plan["missing"], plan["shuffle"]),
                       day_lines(key, y, drng, 1.0, 0.0, False)]
    published = {}         # year -> index of version
    for y in plan["years"]:
        if y not in plan["unpublished"]:
            published[y] = 0

    def refresh():
        w.archive.clear()
        for y, i in published.items():
            w.archive[(key, y)] = [versions[y][i][0]]
    refresh()
    unsure = set()
    cached = {}            # year -> version index known to be in the shared data directory
    state = {"rec": None, "raw": {}, "parsed": {}}

    def seen_fault(y, before):
        frag = "%d/%s" % (y, key)
        return any(f == frag for f, _ in w.net.attr_faults[before:])

    def slots_ok(rec, when):
        """Compare every slot; returns {year: version index} found."""
        held = {}
        pd = rec.parsed_data
        if sorted(pd) != plan["years"]:
            viol.append(["years", "%s: record covers %s, period is %s" % (when, sorted(pd), plan["years"])])
            return None
        for y in plan["years"]:
            days = pd[y]
            n = 366 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 365
            if len(days) != n:
                viol.append(["slots", "%s: %d slots for %d" % (when, len(days), y)])
                return None
            got = {d: x for d, x in enumerate(days) if x is not None}
            if not got:
                held[y] = None
                continue
            match = None
            for i, (txt, exp) in enumerate(versions[y]):
                if set(exp) == set(got) and all(
                        got[d].DATE == exp[d][0]
                        and (got[d].TEMP is None) == (exp[d][1] is None) and (exp[d][1] is None or close(got[d].TEMP, exp[d][1]))
                        and (got[d].WDSP is None) == (exp[d][2] is None)
                        and (exp[d][2] is None or abs(got[d].WDSP - exp[d][2]) < 1e-6 * max(1, exp[d][2]))
                        for d in got):
                    match = i
                    break
            if match is None:
                exp = versions[y][0][1]
                missing = sorted(set(exp) - set(got))[:5]
                viol.append(["slots", "%s: year %d is neither absent nor exactly what was published (%d of %d days; missing %s)"
                             % (when, y, len(got), len(exp), missing)])
                return None
            held[y] = match
        return held

    def body(w, inst, tid, j, op):
        dc = inst["fluids.design_climate"]
        if op[0] == "publish":
            published.setdefault(op[1], 0)
            refresh()
            return
        if op[0] == "update":
            if op[1] in published:
                published[op[1]] = 1
                refresh()
            return
        before = len(w.net.attr_faults)
        nreq = len(w.net.requests)
        d0 = G.disk_faults(w.sim)
        try:
            if op[0] == "create":
                station = dc.IntegratedSurfaceDatabaseStation(plan["st"][0], plan["st"][1], "NAME", "US", None, None, 10.0, 20.0,
                                                              5.0, float(plan["begin"]), float(plan["end"]))
                state["rec"] = None
                rec = dc.StationDataGSOD(station, data_dir_override=w.cache_dir(0))
                state["rec"], state["raw"], state["parsed"] = rec, {}, {}
            rec = state["rec"]
            if rec is None:
                return
            if op[0] == "download":
                rec.download_data()
            elif op[0] == "parse":
                rec.parse_data()
        except Exception as e:
            if G.disk_faults(w.sim) == d0:
                viol.append(["raises", "%s raised %s: %s" % (op[0], type(e).__name__, str(e)[:200])])
            return
        disk = G.disk_faults(w.sim) != d0
        if op[0] in ("create", "download"):
            asked = [u for _, u in w.net.requests[nreq:]]
            for y in plan["years"]:
                reqs = sum(("%d/%s" % (y, key)) in u for u in asked)
                if y in state["raw"]:
                    if reqs:
                        viol.append(["refetch", "year %d is held but was requested again" % y])
                    continue
                if y in cached and disk:
                    state["raw"].pop(y, None)
                    state["maybe"][y] = cached[y]
                elif y in cached:
                    state["raw"][y] = cached[y]
                elif y in published and not seen_fault(y, before) and not disk and y not in unsure:
                    state["raw"][y] = published[y]
                    cached[y] = published[y]
                elif y in published:
                    # failed, or retried successfully: the record decides, checked below
                    state["raw"].pop(y, None)
                    state["maybe"][y] = published[y]
                    unsure.add(y)       # may be in the data directory by now, in the version published then
            w.stat("probe:years-failed", len(w.net.attr_faults) - before)
        if op[0] in ("create", "parse"):
            held = slots_ok(rec, op[0])
            if held is None:
                return
            for y in plan["years"]:
                want = state["raw"].get(y)
                got = held[y]
                if want is None and got is not None and y in state.get("maybe", {}):
                    state["raw"][y] = got
                    cached.setdefault(y, got)
                    unsure.discard(y)
                    continue
                if want is not None and not versions[y][want][1]:
                    continue        # a published file without days cannot be told from absence
                if got != want and not (disk and got is None):
                    viol.append(["held", "after %s year %d holds %s, expected %s" % (
                        op[0], y, "nothing" if got is None else "version %d" % got,
                        "nothing" if want is None else "version %d" % want)])
                elif got is not None and y in plan["unpublished"]:
                    w.stat("probe:year-filled-later")
            state["parsed"] = {y: i for y, i in held.items() if i is not None}
            hist.append(sorted(state["parsed"].items()))
        if op[0] in ("temp", "wind", "cold", "warm"):
            parsed = {y: versions[y][state["parsed"][y]][1] if y in state["parsed"] else {} for y in plan["years"]}
            which = 2 if op[0] == "wind" else 1
            tot, per = model_months(parsed, which, op[1], op[2], op[3])
            try:
                if op[0] == "temp":
                    v = rec.month_average_temperature(op[1], op[2], include_yearly=op[4], minimum_days=op[3])
                elif op[0] == "wind":
                    v = rec.month_average_windspeed(op[1], op[2], include_yearly=op[4], minimum_days=op[3])
                elif op[0] == "cold":
                    v = rec.coldest_month(op[1], op[2], minimum_days=op[3])
                else:
                    v = rec.warmest_month(op[1], op[2], minimum_days=op[3])
            except Exception as e:
                if all(x is not None for x in tot):
                    viol.append(["query", "%s raised %s: %s" % (op, type(e).__name__, str(e)[:200])])
                else:
                    w.stat("probe:month-without-data")
                return
            if any(x is None for x in tot):
                if op[0] in ("cold", "warm"):
                    return
                vv = v[0] if op[4] else v
                if any(t is not None and not (isinstance(g, float) and abs(g - t) <= 1e-6 * max(1.0, abs(t))) for g, t in zip(vv, tot)):
                    viol.append(["query", "%s disagrees with the days held" % op])
                return
            w.stat("probe:full-average")
            if op[0] == "cold":
                good = close(tot[v], min(tot))
            elif op[0] == "warm":
                good = close(tot[v], max(tot))
            else:
                vv, yy = v if op[4] else (v, None)
                tol = 1e-6 if op[0] == "wind" else 1e-9
                good = len(vv) == 12 and all(abs(a - b) <= tol * max(1.0, abs(b)) for a, b in zip(vv, tot))
                if yy is not None:
                    for y in per:
                        for m in range(12):
                            a, b = yy[y][m], per[y][m]
                            if (a is None) != (b is None) or (a is not None and abs(a - b) > tol * max(1.0, abs(b))):
                                good = False
            if not good:
                viol.append(["query", "%s gave %s, the days held give %s" % (op, str(v)[:200], str(tot)[:200])])

    try:
        attempts = {}
        for pi, ops in enumerate(plan["phases"]):
            state.update(rec=None, raw={}, parsed={}, maybe={})
            real_phase_net = simnet.SimNet

            def mk(archive, faults=()):
                n = real_phase_net(archive, faults)
                n.url_faults = {("%d/%s" % (y, key), a): k for y, a, k in plan["net"]}
                for y in plan["years"]:
                    n.url_faults.setdefault(("%d/%s" % (y, key), -1), None)
                n.attempts = attempts
                return n
            simnet.SimNet = mk
            try:
                w.phase([[ops]], body, [f[1:] for f in plan["disk"] if f[0] == pi], (), ())
            finally:
                simnet.SimNet = real_phase_net
            for t in w.sim.tasks:
                if t.exc is not None:
                    raise t.exc
        viol += [v for v in w.viol if v[0] != "non-ordinary-exception"]
        w.stat("operations", sum(len(p) for p in plan["phases"]))
        fired = {k: v for k, v in w.stats.items() if k.startswith("fault:")}
        return {"violations": viol, "key": json.dumps([plan["phases"], hist, fired], default=str), "stats": w.stats,
                "simtime": w.simtime, "nontrivial": bool(fired) or w.stats.get("probe:year-filled-later", 0) > 0}
    finally:
        w.close()


def shrink(plan):
    for i in range(len(plan["phases"])):
        if len(plan["phases"]) > 1:
            p = copy.deepcopy(plan)
            del p["phases"][i]
            p["disk"] = []
            yield p
        for j in range(1, len(plan["phases"][i])):
            p = copy.deepcopy(plan)
            del p["phases"][i][j]
            yield p
    for k in ("net", "disk", "unpublished"):
        for j in range(len(plan[k])):
            p = copy.deepcopy(plan)
            del p[k][j]
            yield p
    if len(plan["years"]) > 1:
        for y in (plan["years"][0], plan["years"][-1]):
            if any(y in op for ph in plan["phases"] for op in ph):
                continue
            p = copy.deepcopy(plan)
            p["years"].remove(y)
            p["begin"] = "%d0101" % p["years"][0]
            p["end"] = "%d1231" % p["years"][-1]
            p["net"] = [x for x in p["net"] if x[0] != y]
            p["unpublished"] = [x for x in p["unpublished"] if x != y]
            yield p
    for k, v in (("missing", 0.0), ("shuffle", False), ("density", 1.0)):
        if plan[k] != v:
            p = copy.deepcopy(plan)
            p[k] = v
            yield p
