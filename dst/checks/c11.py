"""Arguments stay as they were; what the caller does to arguments and results later changes nothing; tables keep their values."""
import json
import random
import sys
import types

from .. import calcsim as K, calls

PROPERTY = "C11"
RUNS = {"quick": 5000, "thorough": 80000}
RULE = ("a run makes 2-25 library calls with mutable arguments or results; arguments are compared before and after each; then a hostile caller edits "
        "everything it passed in and got back, and later calls - same, similar, same module, and on objects built from the edited arguments - are compared bit for bit with "
        "the same call alone in a fresh fork; public tables and constants of all modules are digested at the end; non-trivial if something mutable was edited")
MEASURE = "distinct (calls, edits)"
REAL = ["every library function called, whole package"]
STUBS = ["the caller"]
ASSUMPTIONS = ["helpers documented to work in place, and deliberate accessors of the shared station table, are left out"]
TIMEOUT = 120.0
# documented to work in place on, or to fill, an array given by the caller
INPLACE = ("numerics.arrays:inplace_LU", "numerics:bounds_clip_naive", "numerics:trunc_exp_numpy", "numerics:trunc_log_numpy", "numerics:sort_nelder_mead_points", "nrlmsise00.nrlmsise_00:")
# remembers further weights on first use
GROWS = {"fluids.numerics.central_diff_weights_precomputed": {}}
DIGEST = {}


def prepare(tier, seed):
    K.prepare(maxcost=40000, threads=False)
    K.scan()
    for n, v in tables():
        DIGEST[n] = digest(n, v)


def tables():
    for m in calls.CORE:
        mod = sys.modules.get(m)
        if mod is None or m == "fluids.design_climate":
            continue
        for k, v in sorted(vars(mod).items()):
            if k.startswith("_") or not isinstance(v, (int, float, complex, str, list, dict, tuple, set, frozenset, calls.np().ndarray)):
                continue
            if isinstance(v, (list, dict, set)) and not v:
                continue
            yield m + "." + k, v


def digest(n, v):
    """Of a table that grows by design, only the entries it started with."""
    if n in GROWS:
        v = {k: v.get(k) for k in GROWS[n].setdefault("keys", list(v))}
    return calls.canon(v)


def inplace(key):
    return any(s in key for s in INPLACE)


def strip(r):
    return {k: v for k, v in r.items() if k != "n"}


def mutable(v, d=0):
    if type(v) is dict:
        (k, x), = v.items()
        return k in ("a", "d", "o") or (k == "t" and mutable(x, d + 1) and any(mutable(y) for y in x)) or False
    return type(v) is list


def generate(rng, idx):
    key = K.focus(rng) or K.KEYS[idx % len(K.KEYS)] if rng.random() < 0.75 else K.pick_key(rng)
    mode = rng.choice(["one", "one", "module", "mixed"])
    ops = []
    first = K.pick(rng, key, 20000)
    # calls with list or array arguments first
    rs = [r for r in K.CORPUS[key] if any(mutable(v) for v in list(calls.parts(r)["kw"].values()) + calls.parts(r)["args"])]
    if rs:
        first = rng.choice(rs)
    recs = [first]
    for _ in range(rng.choice([1, 3, 6])):
        if mode == "one":
            recs.append(K.similar_call(rng, first, 0.4))
        else:
            k = rng.choice(K.peers(key) if mode == "module" else K.KEYS)
            recs.append(K.pick(rng, k, 5000))
    recs.append(first)
    for r in recs:
        if rng.random() < 0.2:
            r = as_array(rng, r)
        op = {"call": strip(r), "edit": rng.choice(["args", "result", "both", "both", "both", "none"]), "seed": rng.randrange(1 << 20), "object": []}
        if "new" in r or "on" in r:
            cls = (r.get("new") or r.get("on"))["cls"]
            pool = [q for k in K.keys_of_module(K.module_of(key)) for q in K.CORPUS[k] if "on" in q and q["on"]["cls"] == cls and q.get("n", 0) < 20000]
            for _ in range(rng.choice([1, 2])):
                if pool:
                    q = dict(strip(rng.choice(pool)))
                    q["on"] = r.get("new") or r.get("on")
                    op["object"].append(q)
        ops.append(op)
    return {"ops": ops}


def as_array(rng, r):
    r = calls.clone(r)
    p = calls.parts(r)
    for n, v in p["kw"].items():
        if type(v) is list and v and all(type(x) is float for x in v):
            p["kw"][n] = {"a": ["float64", [len(v)], v]}
    r["n"] = 500
    return r


def scramble(v, rng, depth=0, seen=None):
    """The hostile caller; returns the number of edits."""
    if seen is None:
        seen = set()
    if depth > 4 or id(v) in seen:
        return 0
    seen.add(id(v))
    n = 0
    np = calls.np()
    if isinstance(v, list):
        for x in v[:50]:
            n += scramble(x, rng, depth + 1, seen)
        k = rng.randrange(5)
        if k == 0:
            v.clear()
        elif k == 1:
            v.append(-7.5)
        elif k == 2:
            v.reverse()
        elif v:
            for i in range(len(v)):
                if isinstance(v[i], (int, float)):
                    v[i] = v[i] * 3.0 + 1.0
        if k >= 3 and v and not isinstance(v[0], (int, float)):
            v[0] = "edited"
        return n + 1
    if isinstance(v, tuple):
        for x in v:
            n += scramble(x, rng, depth + 1, seen)
        return n
    if isinstance(v, dict):
        for x in list(v.values()):
            n += scramble(x, rng, depth + 1, seen)
        if rng.random() < 0.3:
            v.clear()
        else:
            for k in list(v)[:10]:
                v[k] = "edited"
            v["edited by the caller"] = 1
        return n + 1
    if isinstance(v, set):
        v.clear()
        v.add("edited")
        return 1
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size and v.dtype.kind in "fi":
            v[...] = 3 * v + 1
            return 1
        return 0
    return 0


def scramble_object(v, rng):
    """Edit an object the caller was given (not one the library keeps for it)."""
    n = 0
    if type(v).__module__.startswith("fluids") and hasattr(v, "__dict__"):
        for k, x in list(vars(v).items()):
            n += scramble(x, rng)
            if isinstance(x, float):
                setattr(v, k, x * 2.0 + 1.0)
                n += 1
    return n


def execute(plan):
    cache, viol, key = {}, [], []
    stats = {"calls": 0, "edits": 0}
    want = [K.expected(o["call"], cache) for o in plan["ops"]]
    wobj = [[K.expected(q, cache) for q in o["object"]] for o in plan["ops"]]
    from .c10 import on_object
    for i, o in enumerate(plan["ops"]):
        rec = o["call"]
        if K.hangs(want[i]) or any(K.hangs(w) for w in wobj[i]):
            continue
        rng = random.Random(o["seed"])
        obj = None
        stats["calls"] += 1
        try:
            if "on" in rec:
                ctor_args = [calls.dec(x) for x in rec["on"]["args"]]
                ctor_kw = {k: calls.dec(x) for k, x in rec["on"]["kw"].items()}
                obj = calls.resolve(*rec["on"]["cls"])(*ctor_args, **ctor_kw)
                args, kw = [calls.dec(x) for x in rec["args"]], {k: calls.dec(x) for k, x in rec["kw"].items()}
                if rec.get("prop"):
                    def fn(obj=obj, rec=rec):
                        return getattr(obj, rec["m"])
                    args, kw = [], {}
                else:
                    fn = getattr(obj, rec["m"])
            else:
                b = calls.Bound(rec)
                fn, args, kw, ctor_args, ctor_kw = b.fn, b.args, b.kw, [], {}
            before = calls.canon([args, kw])
            ok = True
            try:
                v = fn(*args, **kw)
            except Exception as e:
                ok, v = False, e
            got = ("V" if ok else "E") + calls.canon(v)
        except Exception as e:
            ok, v = False, e
            got = "E" + calls.canon(e)
            before = None
        if got != want[i] and not want[i].startswith("H"):
            viol.append(["changed-later-call", "call %d, after the caller edited earlier arguments and results: %s" % (i, K.diff_text(rec, got, want[i]))])
            break
        if before is not None and calls.canon([args, kw]) != before and not inplace(rec["k"]):
            viol.append(["argument-modified", "%s modified what was passed to it: %s is now %s" % (K.describe(rec), K.brief(before), K.brief(calls.canon([args, kw])))])
        if before is None:
            continue
        if "new" in rec and ok:
            obj = v
        if o["edit"] in ("result", "both") and ok and "new" not in rec:
            stats["edits"] += scramble(v, rng)
            if v is not obj and not rec.get("prop"):
                stats["edits"] += scramble_object(v, rng)
        if o["edit"] in ("args", "both") and not inplace(rec["k"]):
            stats["edits"] += scramble(args, rng) + scramble(kw, rng) - 2
            if "on" in rec:
                stats["edits"] += scramble(ctor_args, rng) + scramble(ctor_kw, rng) - 2
        if obj is not None and not rec.get("prop"):
            for q, w in zip(o["object"], wobj[i]):
                got = on_object(obj, q)
                stats["calls"] += 1
                if got != w and not w.startswith("H"):
                    viol.append(["changed-object", "call %d, %s then edits by the caller: %s" % (i, K.describe(rec), K.diff_text(q, got, w))])
                    break
        key.append([K.key_of(rec), o["edit"]])
    for n, v in tables():
        if n in DIGEST and digest(n, v) != DIGEST[n]:
            viol.append(["table-changed", "%s is now %s, was %s" % (n, K.brief(digest(n, v)), K.brief(DIGEST[n]))])
    return {"violations": viol[:5], "key": json.dumps(key), "stats": stats, "simtime": 0.0, "nontrivial": stats["edits"] > 0}


def shrink(plan):
    o = plan["ops"]
    for i in range(len(o)):
        if len(o) > 1:
            yield {"ops": o[:i] + o[i + 1:]}
    for i in range(len(o)):
        for e in ("none", "args", "result"):
            if o[i]["edit"] not in ("none", e):
                d = dict(o[i])
                d["edit"] = e
                yield {"ops": o[:i] + [d] + o[i + 1:]}
        if o[i]["object"]:
            for j in range(len(o[i]["object"])):
                d = dict(o[i])
                d["object"] = d["object"][:j] + d["object"][j + 1:]
                yield {"ops": o[:i] + [d] + o[i + 1:]}
