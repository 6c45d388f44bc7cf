"""Seeded search over plans: fork-per-run execution, minimisation, replay, evidence.

A check module provides
    PROPERTY, LEVEL_NOTE ...
    prepare(tier, seed) -> None        once, in the zygote
    generate(rng, idx) -> plan         JSON-able, pure function of rng
    execute(plan) -> result            in a fresh fork; dict with
         violations: [[class, text]...], key: hashable string (distinctness),
         stats: {name: int}, simtime: float, nontrivial: bool
    shrink(plan) -> iterator of smaller plans
    RUNS = {"quick": n, "thorough": n}
"""
import gc
import hashlib
import json
import os
import random
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = max(1, min(8, os.cpu_count() or 1))


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


class HarnessError(Exception):
    pass


# os functions captured before any seam is installed
_os_read, _os_write, _os_close, _os_fork, _os_waitpid, _os_exit, _os_kill = (
    os.read, os.write, os.close, os.fork, os.waitpid, os._exit, os.kill)
_monotonic = time.monotonic


def fork_call(fn, timeout=60.0):
    """Run fn() in a fresh fork, return ('ok', value) | ('err', text) | ('hang', '') | ('died', status)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = _os_fork()
    if pid == 0:
        try:
            _os_close(r)
            try:
                out = ("ok", fn())
                data = json.dumps(out).encode()
            except BaseException:
                data = json.dumps(("err", traceback.format_exc()[-4000:])).encode()
            while data:
                n = _os_write(w, data)
                data = data[n:]
        finally:
            _os_exit(0)
    _os_close(w)
    buf = []
    deadline = _monotonic() + timeout
    status = None
    while True:
        left = deadline - _monotonic()
        if left <= 0:
            _os_kill(pid, signal.SIGKILL)
            status = "hang"
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        b = _os_read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    _os_close(r)
    _, st = _os_waitpid(pid, 0)
    if status == "hang":
        return ("hang", "")
    try:
        v = json.loads(b"".join(buf))
        return (v[0], v[1])
    except Exception:
        return ("died", "status %r" % (st,))


def pmap(fn, items, timeout=60.0, workers=None, stop=None, batch=1, deadline=None):
    """Map fn over items; every item (or batch of `batch` items) runs in its own fresh fork
    of this process.  Yields results in order as a list."""
    items = list(items)
    workers = workers or NCPU
    workers = max(1, min(workers, len(items)))
    chunks = [items[i:i + batch] for i in range(0, len(items), batch)]
    results = [None] * len(chunks)
    gc.collect()
    gc.freeze()
    pipes = []
    sys.stdout.flush()
    sys.stderr.flush()
    for wk in range(workers):
        r, w = os.pipe()
        pid = _os_fork()
        if pid == 0:
            code = 0
            try:
                _os_close(r)
                for pr, _ in pipes:
                    _os_close(pr)
                for ci in range(wk, len(chunks), workers):
                    if deadline is not None and _monotonic() > deadline:
                        break
                    ch = chunks[ci]
                    res = fork_call(lambda: [fn(x) for x in ch], timeout)
                    data = json.dumps((ci, res)).encode()
                    data = struct.pack("<I", len(data)) + data
                    while data:
                        n = _os_write(w, data)
                        data = data[n:]
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                _os_exit(code)
        _os_close(w)
        pipes.append((r, pid))
    open_ = {r: b"" for r, _ in pipes}
    while open_:
        rl, _, _ = select.select(list(open_), [], [], 5.0)
        for r in rl:
            b = _os_read(r, 1 << 18)
            if not b:
                del open_[r]
                continue
            buf = open_[r] + b
            while len(buf) >= 4:
                n = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                ci, res = json.loads(buf[4:4 + n])
                buf = buf[4 + n:]
                results[ci] = res
            open_[r] = buf
    for r, pid in pipes:
        _os_close(r)
        _, st = _os_waitpid(pid, 0)
    out = []
    for ci, ch in enumerate(chunks):
        res = results[ci]
        if res is None:
            res = ["skipped", ""]
        if res[0] == "ok":
            out.extend(("ok", v) for v in res[1])
        else:
            out.extend((res[0], res[1]) for _ in ch)
    return out


def seed_rng(prop, seed, idx):
    h = hashlib.sha256(("%s/%d/%d" % (prop, seed, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Search:
    def __init__(self, mod, tier, seed):
        self.mod, self.tier, self.seed = mod, tier, seed
        self.prop = mod.PROPERTY

    def classes(self, res):
        """violation classes of a run result"""
        if res[0] == "ok":
            return [v[0] for v in res[1]["violations"]]
        if res[0] == "hang":
            return ["hang"]
        if res[0] == "died":
            return ["process-died"]
        return []

    def run_one(self, plan, timeout=None):
        return fork_call(lambda: self.mod.execute(plan), timeout or getattr(self.mod, "TIMEOUT", 60.0))

    def minimise(self, plan, cls, budget):
        t0 = _monotonic()
        tried = 0
        improved = True
        while improved and _monotonic() - t0 < budget:
            improved = False
            for cand in self.mod.shrink(plan):
                if _monotonic() - t0 > budget:
                    break
                tried += 1
                if cls in self.classes(self.run_one(cand)):
                    plan = cand
                    improved = True
                    break
        return plan, tried


def load_known(prop):
    """known_findings.jsonl: {"property":..., "kind":"known"|"fixed", "match": substring list, ...}"""
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("kind") == "known":
                    out.append(d)
    return out


def is_known(known, cls, text):
    for d in known:
        if d["class"] == cls and all(m in text for m in d["match"]):
            return d
    return None


def main(mod, tier, seed, runs=None, replay=None, write_evidence=True):
    t_start = _monotonic()
    prop = mod.PROPERTY
    if replay is not None:
        with open(replay) as f:
            rp = json.load(f)
        mod.prepare(rp.get("tier", tier), rp["seed"])
        s = Search(mod, tier, rp["seed"])
        gc.collect()
        gc.freeze()
        res = s.run_one(rp["plan"])
        print("REPLAY property=%s class=%s result=%s" % (prop, rp["class"], res[0]))
        if res[0] == "ok":
            for c, txt in res[1]["violations"]:
                print("  violation class=%s: %s" % (c, txt))
        elif res[0] == "err":
            print(res[1])
            return 2
        same = rp["class"] in s.classes(res)
        if same:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1 if same else 0

    print("SEED property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    n = runs or mod.RUNS[tier]
    wall_cap = getattr(mod, "WALL", {"quick": 420.0, "thorough": 3000.0})[tier]
    mod.prepare(tier, seed)
    t_prep = _monotonic() - t_start
    plans = [None] * n

    def one(i):
        plan = mod.generate(seed_rng(prop, seed, i), i)
        return mod.execute(plan)

    deadline = t_start + wall_cap
    t0 = _monotonic()
    batch = getattr(mod, "BATCH", 1)
    res = pmap(one, range(n), timeout=getattr(mod, "TIMEOUT", 60.0), batch=batch, deadline=deadline)
    t_search = _monotonic() - t0
    s = Search(mod, tier, seed)
    known = load_known(prop)
    stats, simtime, keys, errs, done = {}, 0.0, set(), [], 0
    nontriv = set()
    viol = []
    known_hits = {}
    for i, r in enumerate(res):
        if r[0] == "skipped":
            continue
        done += 1
        if r[0] == "err":
            errs.append((i, r[1]))
            continue
        if r[0] in ("hang", "died"):
            viol.append((i, r[0] if r[0] == "hang" else "process-died", str(r[1])))
            continue
        v = r[1]
        for k, x in v.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + x
        simtime += v.get("simtime", 0.0)
        keys.add(v.get("key"))
        if v.get("nontrivial", True):
            nontriv.add(v.get("key"))
        for c, txt in v["violations"]:
            d = is_known(known, c, txt)
            if d is not None:
                known_hits.setdefault(json.dumps(d, sort_keys=True), []).append((i, c, txt))
            else:
                viol.append((i, c, txt))
    rc = 0
    replay_path = None
    nviol = len(viol)
    if errs:
        for i, e in errs[:3]:
            print("HARNESS-ERROR run %d: %s" % (i, e), file=sys.stderr)
    for kd, hits in sorted(known_hits.items()):
        d = json.loads(kd)
        print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        reported = False
        seen = set()
        # one candidate per class first, then further ones
        order = []
        for v in viol:
            if v[1] not in seen:
                seen.add(v[1])
                order.append(v)
        order += [v for v in viol if v not in order][:8]
        for (i, c, txt) in order[:12]:
            plan = mod.generate(seed_rng(prop, seed, i), i)
            r1 = s.run_one(plan, 2 * getattr(mod, "TIMEOUT", 60.0))
            if c not in s.classes(r1):
                print("note: run %d class %s did not recur alone" % (i, c), file=sys.stderr)
                continue
            small, tried = s.minimise(plan, c, 45.0 if tier == "quick" else 180.0)
            path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (prop, seed, i))
            txts = [txt]
            rr = s.run_one(small)
            if rr[0] == "ok":
                txts = [b for a, b in rr[1]["violations"] if a == c] or txts
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "run": i, "tier": tier, "class": c,
                           "what": txts[0], "plan": small, "original_plan": plan,
                           "shrink_attempts": tried}, f, indent=1)
            print("violation class=%s run=%d: %s" % (c, i, txts[0][:1500]))
            import subprocess
            ok = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path],
                                env={k: v for k, v in os.environ.items() if k != "DST_NORMAL"},
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if ok.returncode != 1:
                print("note: minimised replay did not recur in a fresh process, trying the full plan",
                      file=sys.stderr)
                with open(path, "w") as f:
                    json.dump({"property": prop, "seed": seed, "run": i, "tier": tier, "class": c,
                               "what": txt, "plan": plan}, f, indent=1)
                ok = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop, "--replay", path],
                                    env={k: v for k, v in os.environ.items() if k != "DST_NORMAL"},
                                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if ok.returncode == 1:
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                reported = True
                replay_path = path
                break
            print(ok.stdout[-2000:], file=sys.stderr)
        if reported:
            rc = 1
        else:
            print("HARNESS-ERROR: violations seen but none replayed", file=sys.stderr)
            rc = 2
    if rc == 0 and errs:
        rc = 2
    if rc == 0 and done < max(1, n // 4):
        print("HARNESS-ERROR: only %d of %d runs finished in time" % (done, n), file=sys.stderr)
        rc = 2
    wall = _monotonic() - t_start
    samples = []
    for i in (0, 1, n // 2):
        if i < n:
            pl = mod.generate(seed_rng(prop, seed, i), i)
            txt = json.dumps(pl)
            samples.append(pl if len(txt) < 3000 else txt[:3000])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {
              "evaluations": done, "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
              "samples": samples, "runs_planned": n,
              "runs_per_hour": int(done / max(t_search, 1e-9) * 3600),
              "simulated_seconds": simtime, "faults_fired": faults, "probes": probes,
              "counters": other, "distinct_measure": mod.MEASURE, "distinct": len(keys),
              "real_code": mod.REAL, "stubs": mod.STUBS, "prepare_s": round(t_prep, 2),
              "search_s": round(t_search, 2), "harness_errors": len(errs),
              "known_findings_hit": len(known_hits), "replay": replay_path},
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol}
    extra = getattr(mod, "evidence_extra", None)
    if extra:
        ev["coverage"].update(extra())
    if write_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % prop))
    print("DONE property=%s runs=%d distinct=%d violations=%d wall=%.1fs rc=%d"
          % (prop, done, len(keys), nviol, wall, rc), flush=True)
    return rc


def dump(mod, tier, seed, n):
    mod.prepare(tier, seed)
    workers = int(os.environ.get("DST_WORKERS", NCPU))

    def one(i):
        plan = mod.generate(seed_rng(mod.PROPERTY, seed, i), i)
        return mod.execute(plan)
    res = pmap(one, range(n), timeout=getattr(mod, "TIMEOUT", 60.0), batch=1, workers=workers)
    for i, r in enumerate(res):
        print(i, hashlib.sha256(json.dumps(r, sort_keys=True).encode()).hexdigest()[:16])
    return 0
