"""Corpus of library calls: decoding, running, canonical results, isolated oracle, perturbations."""
import datetime
import importlib
import json
import math
import os
import re
import struct
import sys
import types

from . import boot, callbacks

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = ("fluids.atmosphere fluids.compressible fluids.control_valve fluids.core fluids.drag fluids.filters fluids.fittings "
        "fluids.flow_meter fluids.friction fluids.geometry fluids.jet_pump fluids.mixing fluids.open_flow fluids.packed_bed "
        "fluids.packed_tower fluids.particle_size_distribution fluids.piping fluids.pump fluids.safety_valve fluids.saltation "
        "fluids.separator fluids.two_phase fluids.two_phase_voidage fluids.design_climate fluids.constants fluids.numerics "
        "fluids.numerics.arrays fluids.numerics.doubledouble fluids.numerics.polynomial_evaluation "
        "fluids.numerics.polynomial_roots fluids.numerics.polynomial_utils fluids.numerics.special "
        "fluids.optional.irradiance fluids.optional.spa fluids.optional.pychebfun fluids.nrlmsise00 "
        "fluids.nrlmsise00.nrlmsise_00 fluids.nrlmsise00.nrlmsise_00_header fluids.vectorized").split()
_np = None


def np():
    global _np
    if _np is None:
        import numpy
        _np = numpy
    return _np


def preload():
    """Third-party code that is loaded lazily by the library is loaded up front (first use is C20's subject)."""
    for m in ("numpy", "scipy", "scipy.optimize", "scipy.interpolate", "scipy.integrate", "scipy.special", "scipy.spatial", "scipy.stats",
              "scipy.linalg", "scipy.fft", "scipy.fftpack", "pytz", "difflib", "csv", "gzip", "tempfile", "inspect", "decimal", "fractions",
              "numpy.polynomial", "numpy.linalg", "numpy.fft", "numpy.testing", "mpmath", "sympy", "matplotlib"):
        if m in ("sympy", "matplotlib", "mpmath"):
            continue
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def load_core():
    for m in CORE:
        importlib.import_module(m)


# -- values ---------------------------------------------------------------------------
def dec(v):
    t = type(v)
    if t is list:
        return [dec(x) for x in v]
    if t is not dict:
        return v
    (k, x), = v.items()
    if k == "f":
        return float(x)
    if k == "t":
        return tuple(dec(y) for y in x)
    if k == "d":
        return {dec(a): dec(b) for a, b in x}
    if k == "c":
        return complex(dec(x[0]), dec(x[1]))
    if k == "a":
        return np().array([dec(y) for y in x[2]], dtype=x[0]).reshape(x[1])
    if k == "n":
        return getattr(np(), x[0])(dec(x[1]))
    if k == "dt":
        tz = x[7]
        if tz is None:
            return datetime.datetime(*x[:7])
        if isinstance(tz, str):
            import pytz
            return pytz.timezone(tz).localize(datetime.datetime(*x[:7]))
        return datetime.datetime(*x[:7], tzinfo=datetime.timezone(datetime.timedelta(seconds=tz)))
    if k == "o":
        return build(x)
    if k == "cb":
        return callbacks.get(x)
    if k == "lib":
        return resolve(*x)
    raise ValueError(k)


def resolve(mod, name):
    o = sys.modules.get(mod) or importlib.import_module(mod)
    for p in name.split("."):
        o = getattr(o, p)
    return o


def build(spec):
    cls = resolve(*spec["cls"])
    return cls(*[dec(a) for a in spec["args"]], **{k: dec(v) for k, v in spec["kw"].items()})


class Bound:
    """A decoded call, ready to run."""
    __slots__ = ("fn", "args", "kw")

    def __init__(self, rec):
        if "new" in rec:
            s = rec["new"]
            self.fn = resolve(*s["cls"])
            a, k = s["args"], s["kw"]
        elif "on" in rec:
            obj = build(rec["on"])
            a, k = rec["args"], rec["kw"]
            if rec.get("prop"):
                self.fn = lambda: getattr(obj, rec["m"])
                a, k = [], {}
            else:
                self.fn = getattr(obj, rec["m"])
        else:
            self.fn = resolve(*rec["f"])
            a, k = rec["args"], rec["kw"]
        self.args = [dec(x) for x in a]
        self.kw = {n: dec(x) for n, x in k.items()}

    def __call__(self):
        return self.fn(*self.args, **self.kw)


def run_raw(rec):
    """Decode and run: (True, value) or (False, exception)."""
    try:
        return True, Bound(rec)()
    except Exception as e:
        return False, e


_addr = re.compile(r"0x[0-9a-fA-F]{4,}")


# what an object remembers of earlier questions is not part of its value
MEMO = ("basis_integrals",)


def canon(v, depth=0, seen=None):
    """Canonical text of a value: equal texts iff the values are the same bit for bit, with the same types."""
    t = type(v)
    if t is float:
        return "f" + ("nan" if v != v else v.hex())
    if t is int or t is bool or v is None:
        return repr(v)
    if t is str:
        return repr(v)
    if depth > 12:
        return "<deep>"
    if t is list or t is tuple:
        return ("[" if t is list else "(") + ",".join([canon(x, depth + 1, seen) for x in v]) + ("]" if t is list else ")")
    if t is dict:
        return "{" + ",".join([canon(k, depth + 1, seen) + ":" + canon(x, depth + 1, seen) for k, x in v.items()]) + "}"
    if t is set or t is frozenset:
        return "set" + str(sorted(canon(x, depth + 1, seen) for x in v))
    if t is complex:
        return "c" + canon(v.real) + canon(v.imag)
    n = np()
    if isinstance(v, n.ndarray):
        if v.dtype.kind == "O":
            return "a[O]%s[%s]" % (v.shape, ",".join(canon(x, depth + 1, seen) for x in v.ravel().tolist()))
        if v.dtype.kind == "f":
            v = n.array(v)      # copies
            n.copyto(v, n.nan, where=v != v)
        return "a[%s]%s:%s" % (v.dtype, v.shape, v.tobytes().hex())
    if isinstance(v, n.generic):
        return "n[%s]%s" % (v.dtype, canon(v.item(), depth + 1))
    if isinstance(v, BaseException):
        return "exc %s(%s)" % (t.__name__, _addr.sub("0x", str(v))[:600])
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type)):
        return "callable " + getattr(v, "__qualname__", "?")
    if isinstance(v, (datetime.datetime, datetime.timedelta, datetime.date)):
        return repr(v)
    if seen is None:
        seen = set()
    if id(v) in seen:
        return "<cycle>"
    seen = seen | {id(v)}
    if t.__module__.startswith("fluids"):
        d = dict(getattr(v, "__dict__", {}))
        for c in t.__mro__:
            for s in getattr(c, "__slots__", ()):
                if hasattr(v, s):
                    d[s] = getattr(v, s)
        return "%s{%s}" % (t.__qualname__, ",".join("%s:%s" % (k, canon(d[k], depth + 1, seen))
                                                    for k in sorted(d) if k[0] != "_" and k not in MEMO))
    if hasattr(v, "__next__"):
        return "iter" + canon(list(v), depth + 1, seen)
    if t.__module__.split(".")[0] in ("numpy", "scipy"):
        d = getattr(v, "__dict__", None)
        if isinstance(v, dict):
            return t.__name__ + canon(dict(v), depth + 1, seen)
        if d:
            return t.__name__ + canon({k: d[k] for k in sorted(d)}, depth + 1, seen)
        return t.__name__ + _addr.sub("0x", repr(v))
    return t.__name__ + ":" + _addr.sub("0x", repr(v))[:2000]


def outcome(rec):
    ok, v = run_raw(rec)
    return ("V" if ok else "E") + canon(v)


def short(rec):
    if "new" in rec:
        s = rec["new"]
        return "%s(%s)" % (s["cls"][1], _args(s))
    if "on" in rec:
        return "%s(%s).%s(%s)" % (rec["on"]["cls"][1], _args(rec["on"]), rec["m"], _args(rec))
    return "%s(%s)" % (rec["f"][1], _args(rec))


def _args(r):
    s = ", ".join([json.dumps(a) for a in r["args"]] + ["%s=%s" % (k, json.dumps(v)) for k, v in r["kw"].items()])
    return s if len(s) < 300 else s[:300] + "..."


# -- corpus ---------------------------------------------------------------------------
def load_corpus(maxcost=None, keys=None):
    """{key: [rec...]}; a record's "n" is the number of library lines it executed when recorded."""
    out = {}
    for f in ("calls.jsonl", "extra.jsonl"):
        p = os.path.join(HERE, "corpus", f)
        if not os.path.exists(p):
            continue
        for line in open(p):
            r = json.loads(line)
            if maxcost is not None and r.get("n", 0) > maxcost:
                continue
            if keys is not None and not keys(r["k"]):
                continue
            out.setdefault(r["k"], []).append(r)
    return out


def parts(rec):
    return rec["new"] if "new" in rec else rec


def clone(rec):
    r = json.loads(json.dumps(rec))
    return r


class Pool:
    """Values seen per function and argument, for crossing over."""

    def __init__(self, corpus):
        self.vals = {}
        for k, rs in corpus.items():
            for r in rs:
                p = parts(r)
                for n, v in p["kw"].items():
                    d = self.vals.setdefault((k, n), {})
                    d.setdefault(json.dumps(v), v)
        self.vals = {k: list(d.values()) for k, d in self.vals.items()}

    def perturb(self, rng, rec):
        """A call of the same function that differs in one argument."""
        r = clone(rec)
        p = parts(r)
        names = sorted(n for n in p["kw"] if n != "seed")
        r.pop("n", None)
        if not names and not p["args"]:
            return r
        # (a randomised search keeps its seed)
        j = rng.randrange(len(names) + len(p["args"]))
        if j < len(names):
            n = names[j]
            seen = self.vals.get((r["k"], n), [])
            if len(seen) > 1 and rng.random() < 0.5:
                p["kw"][n] = rng.choice(seen)
            else:
                p["kw"][n] = tweak(rng, p["kw"][n])
            if rng.random() < 0.08:
                del p["kw"][n]
        else:
            a = j - len(names)
            p["args"][a] = tweak(rng, p["args"][a])
        return r

    def perturb_all(self, rng, rec):
        """A call of the same function that differs in all numeric arguments."""
        r = clone(rec)
        p = parts(r)
        r.pop("n", None)
        for n, v in p["kw"].items():
            p["kw"][n] = scale(rng, v, 0.8, 1.25)
        p["args"][:] = [scale(rng, v, 0.8, 1.25) for v in p["args"]]
        return r

    def spoil(self, rng, rec):
        """A call that is likely invalid."""
        r = clone(rec)
        p = parts(r)
        r.pop("n", None)
        names = sorted(n for n in p["kw"] if n != "seed")
        if names:
            n = rng.choice(names)
            p["kw"][n] = rng.choice([None, "no such option", -1.0, 0.0, {"f": "nan"}, {"f": "inf"}, [], 1e300 if type(p["kw"][n]) is float else 40, {"t": []}, True, -3])
            if rng.random() < 0.2:
                del p["kw"][n]
        elif p["args"]:
            p["args"][rng.randrange(len(p["args"]))] = rng.choice([None, "x", {"f": "nan"}, -1.0])
        return r


def scale(rng, v, lo=0.3, hi=3.0):
    """Every number in nested lists changed by a factor of its own."""
    if type(v) is list:
        return [scale(rng, x, lo, hi) for x in v]
    return v * rng.uniform(lo, hi) if type(v) is float else v


def tweak(rng, v):
    t = type(v)
    if t is bool:
        return rng.choice([not v, int(v)])
    if t is int:
        return rng.choice([v + 1, v - 1, float(v), v * 2, {"n": ["float64", float(v)]}])
    if t is float:
        c = [v * rng.choice([1.1, 0.9, 0.5, 2.0, 1.0 + 1e-7, 1.0 + 1e-4, 0.999, 1.0 + 1e-11]), v + rng.choice([1.0, 0.1, -0.1]), {"n": ["float64", v]}]
        if v == int(v) and abs(v) < 1e9:
            c.append(int(v))
        return rng.choice(c)
    if t is str:
        return rng.choice([v.lower(), v.upper(), v + " ", v.replace(" ", ""), v])
    if t is list and v:
        q = list(v)
        i = rng.randrange(len(q))
        r = rng.random()
        if r < 0.4:
            q[i] = tweak(rng, q[i])
        elif r < 0.5:
            q = q[::-1]
        elif r < 0.58:
            return {"t": q}
        elif r < 0.65 and len(q) > 1:
            del q[i]
        elif r < 0.8:
            rng.shuffle(q)
        elif r < 0.97:
            q = scale(rng, q)
        return q
    if t is dict and len(v) == 1:
        (k, x), = v.items()
        if k == "t" and x:
            return {"t": tweak(rng, x)} if rng.random() < 0.7 else list(x)
        if k == "a" and x[2]:
            q = list(x[2])
            i = rng.randrange(len(q))
            if type(q[i]) is float:
                q[i] = q[i] * 1.1
            return {"a": [x[0], x[1], q]}
        if k == "dt":
            y = list(x)
            y[rng.choice([2, 3, 4, 5])] = rng.randint(1, 20)
            return {"dt": y}
    return v
