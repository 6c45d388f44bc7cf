"""Which calls leave a trace in the library's own state - module and class variables, default arguments, closures,
attributes of functions, caches?  Only used to aim the search: calls that do are tried more often.  What is reported
is judged by results alone."""
import marshal
import operator
import sys
import types

_np = None
_isnot = operator.is_not


def leaf(v, d=0):
    t = type(v)
    if t in (int, float, bool, str, bytes, complex, type(None)):
        return v if v == v else "nan"
    try:
        return hash(marshal.dumps(v, 2))
    except (ValueError, TypeError, RecursionError):
        pass
    if d > 3:
        return id(v)
    if isinstance(v, _np.ndarray):
        return hash(v.tobytes()) if v.dtype != object else len(v)
    if isinstance(v, dict):
        return hash(tuple((leaf(k, d + 1), leaf(x, d + 1)) for k, x in list(v.items())[:500])) ^ len(v)
    if isinstance(v, (list, tuple)):
        return hash(tuple(leaf(x, d + 1) for x in v[:500])) ^ len(v)
    if isinstance(v, (set, frozenset)):
        return hash(frozenset(leaf(x, d + 1) for x in v)) ^ len(v)
    if isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
        return id(v)
    h = id(v)
    if type(v).__name__ == "_lru_cache_wrapper":
        h ^= hash(v.cache_info())
    q = getattr(v, "__dict__", None)
    if type(q) is dict and q and len(q) < 100:
        h ^= leaf({k: x for k, x in q.items()}, d + 1)
    elif hasattr(v, "__len__"):
        try:
            h ^= len(v)
        except Exception:
            pass
    return h


IMMUTABLE = (int, float, complex, str, bytes, bool, type(None), types.ModuleType, types.BuiltinFunctionType, range)


def fixed(v):
    return isinstance(v, IMMUTABLE) or (type(v) is tuple and all(fixed(x) for x in v))


class Base:
    """The state as it is now, with what is needed to tell quickly whether it changed."""

    def __init__(self, include=lambda m: True):
        global _np
        if _np is None:
            import numpy
            _np = numpy
        self.dicts = []      # (name, namespace, its keys, its values)
        self.values = []     # (name, mutable value, its fingerprint)
        self.seen = set()
        for m in sorted(k for k in sys.modules if (k == "fluids" or k.startswith("fluids.")) and include(k)):
            mod = sys.modules[m]
            if mod is None:
                continue
            self.namespace(m, vars(mod))
            for k, v in list(vars(mod).items()):
                if not k.startswith("__"):
                    self.value(m + "." + k, v, m)
        self.seen = None

    def namespace(self, name, d):
        self.dicts.append((name, d, list(d), list(d.values())))

    def value(self, n, v, m):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            v = v.fget
        if fixed(v) or id(v) in self.seen:
            return
        self.seen.add(id(v))
        if isinstance(v, types.FunctionType):
            if v.__module__ and not v.__module__.startswith("fluids"):
                return
            for x in (v.__defaults__ or ()):
                self.value(n + ".default", x, m)
            for k, x in (v.__kwdefaults__ or {}).items():
                self.value(n + "." + k, x, m)
            self.namespace(n, v.__dict__)
            for k, x in list(v.__dict__.items()):
                self.value(n + "." + k, x, m)
            for i, c in enumerate(v.__closure__ or ()):
                self.values.append(["%s.cell%d" % (n, i), c, cell(c)])
        elif isinstance(v, type):
            if v.__module__ == m:
                self.namespace(n, vars(v))
                for k, x in list(vars(v).items()):
                    if k not in ("__dict__", "__weakref__", "__doc__", "__module__"):
                        self.value(n + "." + k, x, m)
        else:
            self.values.append([n, v, leaf(v)])

    def changed(self):
        out = []
        for n, d, ks, vs in self.dicts:
            if len(d) != len(ks) or any(map(_isnot, d.values(), vs)):
                old = dict(zip(ks, vs))
                out += [n + "." + k for k, v in list(d.items())
                        if (k not in old or old[k] is not v) and not isinstance(v, types.ModuleType)]
                out += [n + "." + k for k in old if k not in d]
        for n, v, h in self.values:
            if (cell(v) if isinstance(v, types.CellType) else leaf(v)) != h:
                out.append(n)
        return out


def cell(c):
    try:
        return leaf(c.cell_contents)
    except ValueError:
        return "empty"


def probe(base, run, n, root, points=(0.2, 0.5, 0.8)):
    """Names changed during and after run(), whose call takes about n lines."""
    names = set()
    at = sorted({max(2, int(n * p)) for p in points})
    count = [0]

    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None
        if event == "line":
            count[0] += 1
            if at and count[0] == at[0]:
                at.pop(0)
                sys.settrace(None)
                try:
                    names.update(base.changed())
                finally:
                    sys.settrace(tr if at else None)
        return tr
    sys.settrace(tr)
    try:
        run()
    finally:
        sys.settrace(None)
    names.update(base.changed())
    return sorted(names)
