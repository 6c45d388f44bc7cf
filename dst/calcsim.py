"""Shared world of the calculation checks: one zygote with the whole library loaded, an isolated oracle, threads."""
import os
import random
import sys
import warnings

from . import boot, calls, engine, runner, statescan

CORPUS = {}
KEYS = []
WEIGHTS = []
POOL = None
EXPECT = {}      # id of corpus record -> outcome alone
_ready = False

# not calculations: they fetch, read or write files, or are the randomised search of C22
SKIP = ("design_climate:", "jet_pump:liquid_jet_pump", "numerics:caching_decorator", "numerics:my_wraps",
        "numerics:numpy_not_available")


def skip(key):
    return any(s in key for s in SKIP)


def prepare(maxcost=60000, threads=True, line=False, interrupts=False, oracle=True, keys=None, extra_modules=(), before=None):
    global CORPUS, POOL, _ready, KEYS
    os.environ["TZ"] = "UTC"
    if "fluids" in sys.modules:
        raise runner.HarnessError("the library was loaded before it could be instrumented")
    if threads:
        engine.install_import_guard()
        engine.install_threading()
    boot.install_finder()
    calls.preload()
    if before:
        before()
    calls.load_core()
    import importlib
    for m in extra_modules:
        importlib.import_module(m)
    warnings.simplefilter("ignore")
    CORPUS = calls.load_corpus(maxcost, keys=lambda k: not skip(k) and (keys is None or keys(k)))
    POOL = calls.Pool(CORPUS)
    KEYS = sorted(CORPUS)
    if line or interrupts:
        engine.monitor(boot.ALL_CODE, line=line, interrupts=interrupts)
        boot.CODE_HOOKS.append(engine.monitor_new_code)
    if oracle:
        recs = [r for k in KEYS for r in CORPUS[k]]
        res = runner.pmap(lambda i: calls.outcome(recs[i]), range(len(recs)), timeout=120)
        for r, o in zip(recs, res):
            if o[0] == "ok":
                EXPECT[key_of(r)] = o[1]
            elif o[0] == "err":
                raise runner.HarnessError("oracle: %s: %s" % (calls.short(r), o[1]))


TRACES = {}      # library variable -> functions that change it while or after they run
# bound on first use to a function of another package
LAZY = ("fluids.numerics.sp_", "fluids.friction.fuzzy_match_fun")


def scan():
    """Find the calls that leave a trace in the library's own state, to aim the search at them."""
    base = statescan.Base(lambda m: m not in ("fluids.units", "fluids.vectorized"))
    root = boot.PKG

    def one(i):
        rs = sorted(CORPUS[KEYS[i]], key=lambda r: r.get("n", 100))
        rs = [rs[0], rs[len(rs) // 2]] if len(rs) > 1 else rs
        out = set()
        for j, r in enumerate(rs):
            out.update(statescan.probe(base, lambda: calls.outcome(r), r.get("n", 100), root, () if j == 0 and len(rs) > 1 else (0.35, 0.7)))
        return sorted(out)
    for k, r in zip(KEYS, runner.pmap(one, range(len(KEYS)), timeout=120)):
        if r[0] == "ok":
            for n in r[1]:
                TRACES.setdefault(n, []).append(k)


def focus(rng):
    """A function known to leave a trace, now and then; else None."""
    names = sorted(n for n in TRACES if not n.startswith(LAZY))
    if names and rng.random() < 0.5:
        return rng.choice(TRACES[rng.choice(names)])
    lazy = sorted(n for n in TRACES if n.startswith(LAZY))
    if lazy and rng.random() < 0.06:
        return rng.choice(TRACES[rng.choice(lazy)])
    return None


def peers(key):
    """Functions leaving a trace in the same variable, and those of the same module."""
    same = sorted({k for n, ks in TRACES.items() if key in ks and not n.startswith(LAZY) for k in ks})
    return same if same else keys_of_module(module_of(key))


def key_of(rec):
    import json
    return json.dumps({k: v for k, v in rec.items() if k not in ("n", "k")}, sort_keys=True)


def expected(rec, cache=None):
    """Outcome of the call made alone in a fresh process (this process must still be pristine)."""
    k = key_of(rec)
    e = EXPECT.get(k)
    if e is None and cache is not None:
        e = cache.get(k)
    if e is None:
        r = ("hang", "") if cache is not None and cache.get("hung", 0) >= 2 else runner.fork_call(lambda: calls.outcome(rec), 10.0)
        if r[0] == "hang" and cache is not None:
            cache["hung"] = cache.get("hung", 0) + 1
        if r[0] == "err":
            raise runner.HarnessError(r[1])
        e = r[1] if r[0] == "ok" else "H" + r[0]
        if rec["k"].endswith(":central_diff_weights") and e.startswith("Eexc TypeError"):
            e = "H" + e     # an integer given as a float: refused unless the weights are known already
        if cache is not None:
            cache[k] = e
    return e


def hangs(want):
    """The call never ends even alone: its run leaves it out."""
    return want == "Hhang" or want == "Hdied"


def pick_key(rng, weights=None):
    """Functions are equally likely; the cost of a call is bounded by the generator."""
    return rng.choice(KEYS)


def pick(rng, key, budget=None):
    rs = CORPUS[key]
    if budget is not None:
        rs = [r for r in rs if r.get("n", 100) <= budget] or [min(rs, key=lambda r: r.get("n", 100))]
    return rng.choice(rs)


_mod_keys = {}


def module_of(key):
    return key.split(":")[0]


def keys_of_module(m):
    if not _mod_keys:
        for k in KEYS:
            _mod_keys.setdefault(module_of(k), []).append(k)
    return _mod_keys.get(m, [])


def similar_call(rng, rec, p_perturb=0.6):
    """Another call of the same function: from the corpus, or this one with an argument or all of them changed."""
    if rng.random() < p_perturb:
        if rng.random() < 0.25:
            r = POOL.perturb_all(rng, rec)
            r["n"] = 4 * rec.get("n", 100)
            return r
        r = POOL.perturb(rng, rec)
        if rng.random() < 0.25:
            r = POOL.perturb(rng, r)
        r["n"] = 4 * rec.get("n", 100)
        return r
    return rng.choice(CORPUS[rec["k"]])


def describe(rec):
    return calls.short(rec)


def differs(got, want):
    return got != want


def diff_text(rec, got, want):
    return "%s gives %s, alone it gives %s" % (describe(rec), brief(got), brief(want))


def brief(o):
    return o if len(o) < 260 else o[:180] + "..." + o[-60:]
