"""Histories of calls: every call answers as it does alone in a fresh process."""
import json

from .. import calcsim as K, calls

PROPERTY = "C09"
RUNS = {"quick": 5000, "thorough": 80000}
RULE = ("a run is a history of 4-400 library calls in one process - one function with one argument changed at a time, several functions of a "
        "module, mixed modules, invalid calls, long repetition - each compared bit for bit with the same call alone in a fresh fork; "
        "non-trivial always (at least one call follows another)")
MEASURE = "distinct histories (calls and outcomes)"
REAL = ["every library function called, whole package", "numpy and scipy underneath"]
STUBS = ["none: fresh process images are forks of one pristine process"]
ASSUMPTIONS = ["third-party libraries are loaded before the first call", "calls and their arguments come from a corpus recorded at development time and perturbations of it"]
TIMEOUT = 120.0


def prepare(tier, seed):
    K.prepare(maxcost=60000, threads=False)
    K.scan()


def generate(rng, idx):
    mode = rng.choice(["one", "one", "one", "module", "mixed", "invalid", "long", "pingpong"])
    # every function is visited in turn
    key = K.focus(rng) or K.KEYS[idx % len(K.KEYS)] if rng.random() < 0.7 else K.pick_key(rng)
    first = K.pick(rng, key)
    seq = [first]
    budget = 150000
    if mode == "one":
        for _ in range(rng.choice([4, 8, 14])):
            seq.append(K.similar_call(rng, rng.choice(seq)))
        seq.append(first)
    elif mode == "pingpong":
        b = K.similar_call(rng, first)
        seq = [first, b] * rng.choice([3, 6]) + [first]
    elif mode == "invalid":
        for _ in range(rng.choice([3, 6])):
            seq.append(K.POOL.spoil(rng, rng.choice(seq)))
            seq.append(K.similar_call(rng, first, 0.4))
        seq.append(first)
    elif mode == "long":
        rs = K.CORPUS[key][:]
        rng.shuffle(rs)
        rs = rs[:rng.choice([2, 4, 8])]
        n = max(3, min(400, budget // max(1, sum(r.get("n", 100) for r in rs) // len(rs))))
        seq = [rng.choice(rs) for _ in range(n)]
    else:
        mods = K.peers(key) if mode == "module" else K.KEYS
        for _ in range(rng.choice([10, 25, 40])):
            k = rng.choice(mods)
            r = K.pick(rng, k, 8000)
            seq.append(K.similar_call(rng, r, 0.25) if rng.random() < 0.3 else r)
        seq.append(first)
    out, spent = [], 0
    for r in seq:
        spent += r.get("n", 200)
        if spent > 3 * budget and len(out) >= 4:
            break
        out.append({k: v for k, v in r.items() if k != "n"})
    return {"calls": out, "mode": mode}


def execute(plan):
    cache = {}
    want = [K.expected(r, cache) for r in plan["calls"]]
    viol, outs = [], []
    for i, r in enumerate(plan["calls"]):
        if K.hangs(want[i]):
            continue
        got = calls.outcome(r)
        outs.append(got[:1])
        if got != want[i]:
            if want[i].startswith("H"):
                continue
            viol.append(["history", "call %d, %s" % (i, K.diff_text(r, got, want[i]))])
            if len(viol) > 3:
                break
    stats = {"calls": len(outs), "probe:calls-that-raise": sum(o == "E" for o in outs), "mode:" + plan["mode"]: 1}
    return {"violations": viol, "key": json.dumps([K.key_of(r) for r in plan["calls"]]), "stats": stats, "simtime": 0.0, "nontrivial": True}


def shrink(plan):
    c = plan["calls"]
    n = len(c)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            q = c[:i] + c[i + size:]
            if q:
                yield {"calls": q, "mode": plan["mode"]}
        size //= 2
