"""Development-time tool: records the calls the library's own tests and doctests make, with plain arguments.
   /opt/venv/bin/python tools/record_corpus.py OUT.jsonl      (run from a scratch copy of the repository)
Only literal-like arguments are kept; callbacks are handled by the solver checks."""
import datetime
import inspect
import json
import os
import sys
import types

OUT = os.path.abspath(sys.argv[1])
REPO = os.environ.get("REC_REPO", "/repo")
os.chdir(REPO)
sys.path.insert(0, REPO)
import numpy as np  # noqa: E402
import pytest  # noqa: E402

import fluids  # noqa: E402

PKG = REPO + "/fluids/"
MAXPER = 40


class No(Exception):
    pass


ctor = {}       # id(obj) -> (obj, spec)


def enc(v, depth=0):
    if depth > 6:
        raise No
    t = type(v)
    if v is None or t in (bool, str):
        return v
    if t is int:
        if abs(v) > 1 << 62:
            raise No
        return v
    if t is float:
        return v if v == v and v not in (float("inf"), float("-inf")) else {"f": repr(v)}
    if t is list:
        if len(v) > 400:
            raise No
        return [enc(x, depth + 1) for x in v]
    if t is tuple:
        if len(v) > 400:
            raise No
        return {"t": [enc(x, depth + 1) for x in v]}
    if t is dict:
        return {"d": [[enc(k, depth + 1), enc(x, depth + 1)] for k, x in v.items()]}
    if t is complex:
        return {"c": [enc(v.real), enc(v.imag)]}
    if t is np.ndarray:
        if v.size > 400 or v.dtype.kind not in "fib":
            raise No
        return {"a": [str(v.dtype), list(v.shape), [enc(x) for x in v.ravel().tolist()]]}
    if isinstance(v, np.floating):
        return {"n": [str(v.dtype), enc(float(v))]}
    if t is datetime.datetime:
        tz = None
        if v.tzinfo is not None:
            tz = getattr(v.tzinfo, "zone", None)
            if tz is None:
                tz = v.utcoffset().total_seconds()
        return {"dt": [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, tz]}
    if id(v) in ctor and ctor[id(v)][0] is v:
        return {"o": ctor[id(v)][1]}
    raise No


funcs = {}
for name, mod in list(sys.modules.items()):
    if not name.startswith("fluids") or mod is None:
        continue


def scan(mod, name):
    for k, v in list(vars(mod).items()):
        if isinstance(v, types.FunctionType) and v.__module__ == name and v.__name__ == k:
            funcs[v.__code__] = (name, k, None, v)
        elif isinstance(v, type) and v.__module__ == name:
            for m, f in list(vars(v).items()):
                if isinstance(f, property):
                    f = f.fget
                    kind = "property"
                elif isinstance(f, (staticmethod, classmethod)):
                    f, kind = f.__func__, type(f).__name__
                else:
                    kind = "method"
                if isinstance(f, types.FunctionType):
                    funcs.setdefault(f.__code__, (name, k, (m, kind), f))


MODS = ["fluids." + m for m in
        "atmosphere compressible control_valve core design_climate drag filters fittings flow_meter friction geometry jet_pump "
        "mixing open_flow packed_bed packed_tower particle_size_distribution piping pump safety_valve saltation separator two_phase "
        "two_phase_voidage units optional.irradiance optional.spa optional.pychebfun numerics numerics.arrays numerics.doubledouble "
        "numerics.polynomial_evaluation numerics.polynomial_roots numerics.polynomial_utils numerics.special "
        "nrlmsise00.nrlmsise_00 nrlmsise00.nrlmsise_00_header constants.conversion_factors".split()]
import importlib  # noqa: E402
for m in MODS:
    try:
        scan(importlib.import_module(m), m)
    except ImportError as e:
        print("skip", m, e)

records = {}
order = []
MON = sys.monitoring
E = MON.events
MON.use_tool_id(3, "rec")


def interesting(fr):
    fn = fr.f_code.co_filename
    return "/tests/" in fn or fn.startswith("<doctest")


def on_start(code, off):
    info = funcs.get(code)
    if info is None:
        return MON.DISABLE
    fr = sys._getframe(1)
    caller = fr.f_back
    if caller is None or not interesting(caller):
        return
    modname, name, meth, fn = info
    try:
        argv = inspect.getargvalues(fr)
        sig = inspect.signature(fn)
        pos, kw = [], {}
        loc = argv.locals
        params = list(sig.parameters.values())
        self = None
        if meth is not None and meth[1] in ("method", "property"):
            self = loc[params[0].name]
            params = params[1:]
        elif meth is not None and meth[1] == "classmethod":
            params = params[1:]
        elif meth is not None and meth[1] == "staticmethod":
            pass
        allpos = True
        for p in params:
            v = loc[p.name]
            if p.kind == p.VAR_POSITIONAL:
                pos = [*(enc(x) for x in v)] if not kw else _no()
                continue
            if p.kind == p.VAR_KEYWORD:
                for k, x in v.items():
                    kw[k] = enc(x)
                continue
            if p.default is not p.empty and (v is p.default):
                continue
            kw[p.name] = enc(v)
        if meth is not None and meth[0] == "__init__":
            spec = {"cls": [modname, type(self).__name__], "args": pos, "kw": kw}
            if type(self).__name__ == name:
                ctor[id(self)] = (self, spec)
            rec = {"new": spec}
            key = (modname, name + ".__init__")
        elif self is not None:
            if meth[0].startswith("__") and meth[0] not in ("__add__", "__sub__", "__mul__", "__truediv__", "__eq__", "__neg__", "__call__",
                                                             "__pow__", "__abs__", "__lt__", "__gt__"):
                return
            ent = ctor.get(id(self))
            if ent is None or ent[0] is not self:
                return
            rec = {"on": ent[1], "m": meth[0], "prop": meth[1] == "property", "args": pos, "kw": kw}
            key = (modname, name + "." + meth[0])
        elif meth is not None:
            rec = {"f": [modname, name + "." + meth[0]], "args": pos, "kw": kw}
            key = (modname, name + "." + meth[0])
        else:
            rec = {"f": [modname, name], "args": pos, "kw": kw}
            key = (modname, name)
        s = json.dumps(rec, sort_keys=True)
        if len(s) > 6000:
            return
        d = records.setdefault(key, {})
        if s not in d and len(d) < 400:
            d[s] = rec
    except (No, KeyError, TypeError, ValueError):
        return


def _no():
    raise No


MON.register_callback(3, E.PY_START, on_start)
for c in funcs:
    MON.set_local_events(3, c, E.PY_START)

sys.dont_write_bytecode = True
rc = pytest.main(["-q", "-x", "--no-header", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=600", "-m", "not online and not thermo and not numba",
                  "--maxfail=1000", "--deselect", "tests/test_numba.py", "--ignore=tests/test_numba.py", "--ignore=docs", "--doctest-modules", "tests", "fluids"])
with open(OUT, "w") as f:
    for key in sorted(records):
        for s in records[key]:
            f.write(json.dumps({"k": "%s:%s" % key, **records[key][s]}) + "\n")
print(rc, len(records), sum(len(d) for d in records.values()))
