"""A call cut short anywhere leaves nothing behind: later calls answer as if it had never been made."""
import json

from .. import callbacks, calcsim as K, calls, engine

PROPERTY = "C10"
RUNS = {"quick": 4500, "thorough": 70000}
RULE = ("a run cuts 1-6 library calls short, one after another in one process - by an interrupt or failed allocation at any point where CPython "
        "can deliver one, or an error of any kind raised in the user's function at a given evaluation - and follows each with the same call, variants of it, calls of "
        "the same module and, for methods, calls on the very object; each follow-up is compared bit for bit with the same call alone in a fresh fork; "
        "non-trivial if something was cut short")
MEASURE = "distinct (calls, points, follow-ups)"
REAL = ["every library function called, whole package"]
STUBS = ["delivery of signals and allocation failures (raised in library code)"]
ASSUMPTIONS = ["faults inside third-party code are represented by their arrival on return from it or inside user callbacks"]
TIMEOUT = 120.0
CBERR = {"value": ValueError, "zero": ZeroDivisionError, "key": KeyError, "stop": StopIteration, "int": engine.Interrupt, "mem": engine.NoMemory,
         "over": OverflowError, "assert": AssertionError}


def prepare(tier, seed):
    K.prepare(maxcost=40000, line=True, interrupts=True)
    K.scan()


def strip(r):
    return {k: v for k, v in r.items() if k != "n"}


def generate(rng, idx):
    cuts = []
    key = K.focus(rng) or K.KEYS[idx % len(K.KEYS)] if rng.random() < 0.75 else K.pick_key(rng)
    for n in range(rng.choice([1, 2, 3, 6])):
        if n and rng.random() < 0.4:
            key = rng.choice(K.keys_of_module(K.module_of(key)))
        rec = K.pick(rng, key, 20000)
        if rng.random() < 0.2:
            rec = K.POOL.perturb(rng, rec)
        f = round(rng.random(), 6) if rng.random() < 0.8 else -rng.randint(1, 10)
        follow = [["same", strip(rec)]] if rng.random() < 0.8 else []
        for _ in range(rng.choice([1, 2])):
            r = rng.random()
            if r < 0.5:
                follow.append(["other", strip(K.similar_call(rng, rec, 0.3))])
            else:
                follow.append(["other", strip(K.pick(rng, rng.choice(K.keys_of_module(K.module_of(key))), 3000))])
        if "on" in rec:
            for _ in range(2):
                pool = [q for k in K.keys_of_module(K.module_of(key)) for q in K.CORPUS[k] if "on" in q and q["on"]["cls"] == rec["on"]["cls"]
                        and q.get("n", 0) < 20000]
                q = dict(strip(rng.choice(pool)))
                q["on"] = rec["on"]
                follow.append(["object", q])
        cuts.append({"call": strip(rec), "kind": rng.choice(["int", "int", "mem"]), "at": f, "cb": rng.choice(sorted(CBERR)), "follow": follow})
    return {"cuts": cuts}


def execute(plan):
    from .c13 import has_callback
    cache, viol, key = {}, [], []
    stats = {"cuts": 0, "follow-ups": 0}
    want = [[K.expected(r, cache) for _, r in c["follow"]] for c in plan["cuts"]]
    for ci, c in enumerate(plan["cuts"]):
        rec = c["call"]
        # length of the undisturbed call, measured in a process of its own
        from .. import runner
        cb = has_callback(rec)
        m = runner.fork_call(lambda: list(attempt(rec, 0, None, None, True)[2:4]), 20)
        if m[0] != "ok":
            continue
        n, ncb = m[1]
        if cb and ncb and ci % 2 == 0:
            at = 1 + int(c["at"] * ncb) if c["at"] >= 0 else min(ncb, -c["at"])
            obj, fired, _, _ = attempt(rec, 0, None, (at, c["cb"]))
            if fired:
                stats["fault:callback-" + c["cb"]] = stats.get("fault:callback-" + c["cb"], 0) + 1
            how = "error %s in the user's function at evaluation %d" % (c["cb"], at)
        elif n:
            at = 1 + int(c["at"] * n) if c["at"] >= 0 else min(n, -c["at"])
            obj, fired, _, _ = attempt(rec, at, c["kind"], None)
            if fired:
                k = "fault:interrupt" if c["kind"] == "int" else "fault:alloc-failure"
                stats[k] = stats.get(k, 0) + 1
            how = "%s at point %d of %d" % ("interrupted" if c["kind"] == "int" else "allocation failed", at, n)
        else:
            continue
        stats["cuts"] += 1
        key.append([K.key_of(rec), how])
        for (kind, r), w in zip(c["follow"], want[ci]):
            if K.hangs(w):
                continue
            if kind == "object":
                if obj is None:
                    continue
                got = on_object(obj, r)
            else:
                got = calls.outcome(r)
            stats["follow-ups"] += 1
            if got != w and not w.startswith("H"):
                viol.append(["left-behind", "after %s (%s): %s%s" % (K.describe(rec), how, "on the same object, " if kind == "object" else "",
                                                                   K.diff_text(r, got, w))])
        if len(viol) > 3:
            break
    return {"violations": viol[:5], "key": json.dumps([key, [[f[1] for f in c["follow"]] for c in plan["cuts"]]], sort_keys=True),
            "stats": stats, "simtime": 0.0, "nontrivial": stats["cuts"] > 0}


def on_object(obj, r):
    try:
        if r.get("prop"):
            v = getattr(obj, r["m"])
        else:
            v = getattr(obj, r["m"])(*[calls.dec(x) for x in r["args"]], **{k: calls.dec(x) for k, x in r["kw"].items()})
        return "V" + calls.canon(v)
    except Exception as e:
        return "E" + calls.canon(e)


def attempt(rec, point, kind, cbfault, count=False):
    """Run the call with a fault; returns (object it worked on, fired, interrupt points, callback evaluations)."""
    sim = engine.Sim((), [[0, point, kind]] if point else (), max_steps=3_000_000)
    box = {"obj": None, "n": 0, "fired": False}

    def body():
        t = sim.tasks[0]
        t.noyield += 1
        try:
            if "on" in rec:
                obj = box["obj"] = calls.build(rec["on"])
                args = [calls.dec(x) for x in rec["args"]]
                kw = {k: calls.dec(x) for k, x in rec["kw"].items()}
                if rec.get("prop"):
                    def fn():
                        return getattr(obj, rec["m"])
                    args, kw = [], {}
                else:
                    fn = getattr(obj, rec["m"])
            else:
                b = calls.Bound(rec)
                fn, args, kw = b.fn, b.args, b.kw
        except Exception:
            return
        finally:
            t.noyield -= 1
        if cbfault is not None or count:
            def wrap(f):
                def g(*a, **k):
                    box["n"] += 1
                    if cbfault is not None and box["n"] == cbfault[0]:
                        box["fired"] = True
                        raise CBERR[cbfault[1]]("injected by the user's function")
                    return f(*a, **k)
                return g
            args = [wrap(a) if getattr(a, "__module__", "") == callbacks.__name__ else a for a in args]
            kw = {k: wrap(a) if getattr(a, "__module__", "") == callbacks.__name__ else a for k, a in kw.items()}
        try:
            fn(*args, **kw)
        except BaseException:
            pass
    sim.spawn(body)
    sim.run()
    t = sim.tasks[0]
    return box["obj"], box["fired"] or bool(t.injected), t.ipoint, box["n"]


def shrink(plan):
    cs = plan["cuts"]
    if len(cs) > 1:
        for i in range(len(cs)):
            yield {"cuts": cs[:i] + cs[i + 1:]}
    for i, c in enumerate(cs):
        for j in range(len(c["follow"])):
            if len(c["follow"]) > 1 or len(cs) > 1:
                d = dict(c)
                d["follow"] = c["follow"][:j] + c["follow"][j + 1:]
                yield {"cuts": cs[:i] + [d] + cs[i + 1:]}
