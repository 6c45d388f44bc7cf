"""Concurrent calls of library functions: every thread gets what its call gives alone."""
import copy
import json

from .. import calcsim as K, calls, engine

PROPERTY = "C08"
RUNS = {"quick": 13000, "thorough": 150000}
RULE = ("a run is 2-4 threads making 1-3 library calls each (mostly the same function with different arguments, or functions of one module), "
        "with context switches at lines of library code: sparse random ones, or at every k-th line on average (k from 1 to 100); "
        "every outcome is compared bit for bit with the same call alone in a fresh fork; non-trivial if a switch happened inside a call")
MEASURE = "distinct (calls, context switches)"
REAL = ["every library function called, whole package, on real threads", "numpy and scipy underneath"]
STUBS = ["thread scheduling (line level; code of other packages runs atomically)"]
ASSUMPTIONS = ["interleaving at line granularity of library code", "third-party libraries are loaded before the first call and are thread safe"]
TIMEOUT = 120.0


def prepare(tier, seed):
    K.prepare(maxcost=20000, line=True)
    K.scan()


def generate(rng, idx):
    key = K.focus(rng) or K.KEYS[idx % len(K.KEYS)] if rng.random() < 0.75 else K.pick_key(rng)
    mode = rng.choice(["same", "same", "same", "same", "module", "mixed"])
    nt = rng.choice([2, 2, 2, 3, 4])
    tasks = []
    first = K.pick(rng, key, 12000)
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if t == 0 and not ops:
                ops.append(first)
            elif mode == "same":
                ops.append(K.similar_call(rng, first, 0.5))
            else:
                k = rng.choice(K.peers(key) if mode == "module" else K.KEYS)
                ops.append(K.pick(rng, k, 3000))
        tasks.append(ops)
    if mode != "same" and rng.random() < 0.5:
        tasks[1][0] = K.similar_call(rng, first, 0.5)
    length = [max(4, int(1.15 * sum(r.get("n", 50) for r in ops))) for ops in tasks]
    preempt = []
    if rng.random() < 0.45:
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            t = rng.randrange(nt)
            preempt.append([t, rng.randint(1, length[t]), rng.choice([x for x in range(nt) if x != t])])
    else:
        gap = rng.choice([1, 2, 3, 7, 25, 100])
        for t in range(nt):
            s, cap = 0, 400
            start = rng.randint(0, max(0, length[t] - cap * gap)) if length[t] > cap * gap else 0
            s = start
            while s < length[t] and cap:
                s += 1 + (int(rng.expovariate(1.0 / gap)) if gap > 1 else 0)
                preempt.append([t, s, rng.choice([x for x in range(nt) if x != t])])
                cap -= 1
    return {"tasks": [[{k: v for k, v in r.items() if k != "n"} for r in ops] for ops in tasks], "preempt": engine.with_stalls(rng, preempt)}


def execute(plan):
    cache = {}
    want = [[K.expected(r, cache) for r in ops] for ops in plan["tasks"]]
    if any(K.hangs(w) for ws in want for w in ws):
        return {"violations": [], "key": "never ends alone", "stats": {"calls": 0}, "simtime": 0.0, "nontrivial": False}
    bound = [[_decode(r) for r in ops] for ops in plan["tasks"]]
    sim = engine.Sim(plan["preempt"], max_steps=8_000_000)
    got = [[None] * len(ops) for ops in plan["tasks"]]

    def runner_of(t):
        def body():
            for j, b in enumerate(bound[t]):
                try:
                    r = ("V", b())
                except Exception as e:
                    r = ("E", e)
                sim.tasks[t].noyield += 1
                try:
                    got[t][j] = r[0] + calls.canon(r[1])
                finally:
                    sim.tasks[t].noyield -= 1
        return body
    for t in range(len(plan["tasks"])):
        sim.spawn(runner_of(t))
    sim.run()
    viol = []
    if sim.deadlock:
        viol.append(["deadlock", "threads %s wait for each other for ever" % sim.deadlock])
    elif sim.over:
        viol.append(["no-progress", "the calls did not finish within %d steps" % sim.max_steps])
    else:
        for t, ops in enumerate(plan["tasks"]):
            for j, r in enumerate(ops):
                if got[t][j] != want[t][j] and not want[t][j].startswith("H"):
                    viol.append(["interference", "thread %d: %s" % (t, K.diff_text(r, str(got[t][j]), want[t][j]))])
    stats = {"calls": sum(len(o) for o in plan["tasks"]), "switches": len(sim.switches)}
    return {"violations": viol[:4], "key": json.dumps([[K.key_of(r) for r in o] for o in plan["tasks"]] + [sim.switches]),
            "stats": stats, "simtime": 0.0, "nontrivial": bool(sim.switches)}


def _decode(r):
    try:
        return calls.Bound(r)
    except Exception as e:
        def f(e=e):
            raise e
        return f


def shrink(plan):
    n = len(plan["preempt"])
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            p = dict(plan)
            p["preempt"] = plan["preempt"][:i] + plan["preempt"][i + size:]
            yield p
        size //= 2
    for i in range(len(plan["tasks"])):
        if len(plan["tasks"]) > 2:
            p = copy.deepcopy(plan)
            del p["tasks"][i]
            p["preempt"] = [[a - (a > i), s, b - (b > i)] for a, s, b in p["preempt"] if a != i and b != i]
            yield p
        for j in range(len(plan["tasks"][i])):
            if len(plan["tasks"][i]) > 1:
                p = copy.deepcopy(plan)
                del p["tasks"][i][j]
                yield p
