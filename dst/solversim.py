"""The user's side of a solver: functions that answer, misbehave or fail at scripted evaluations, with a full record.

A job is JSON: {"solver", "fn": function parameters, "opt": solver options, "fault": script or None}.
`perform(job)` runs it against the real solver and returns (outcome, record of f, record of the jacobian);
`verdict(job, ...)` judges a normal return on the recorded evaluations alone.
"""
import math
import random

from . import engine

N = None          # fluids.numerics, set by the check


class UserValue(ValueError):
    pass


class UserZero(ZeroDivisionError):
    pass


class UserKey(KeyError):
    pass


class UserAttr(AttributeError):
    pass


class UserError(Exception):
    pass


class UserBase(BaseException):
    pass


ERR = {"value": UserValue, "zero": UserZero, "key": UserKey, "attr": UserAttr, "user": UserError, "base": UserBase,
       "stop": StopIteration, "over": OverflowError, "index": IndexError, "type": TypeError,
       "int": engine.Interrupt, "mem": engine.NoMemory}
HARD = (UserBase, engine.Interrupt)


def hashed(x, k):
    return random.Random("%r/%r" % (x, k)).uniform(-1.0, 1.0)


# -- one variable ---------------------------------------------------------------------
def base1(p):
    a, s, kind = p["a"], p["s"], p["kind"]

    def f(x):
        d = x - a
        if kind == "lin":
            return s * d
        if kind == "cub":
            return s * (d * d * d + 0.1 * d)
        if kind == "atan":
            return s * math.atan(4.0 * d)
        if kind == "exp":
            return s * (math.exp(max(-300.0, min(300.0, d))) - 1.0)
        if kind == "step":
            return s if d > 0 else -s
        if kind == "stair":
            return s * (math.floor(8.0 * max(-1e9, min(1e9, d))) / 8.0 + 0.0625)
        if kind == "ramp":
            return s * (d if d > -0.5 else -0.5)
        if kind == "plateau":
            return s * (0.0 if abs(d) < 0.05 else d)
        if kind == "pole":
            return s / d
        if kind == "root3":
            return s * math.copysign(abs(d) ** (1.0 / 3.0), d)
        if kind == "sin":
            return s * math.sin(3.0 * d)
        if kind == "noisy":
            return s * (d + 1e-3 * hashed(x, a))
        if kind == "const":
            return s
        if kind == "bowl":
            return s * (d * d + 0.1)
        if kind == "parab":
            return s * (d * d - 0.25)
        raise KeyError(kind)
    return f


def slope(p):
    f = base1(p)
    a, s, kind = p["a"], p["s"], p["kind"]

    def d1(x):
        d = x - a
        if kind in ("lin", "noisy"):
            return s
        if kind == "cub":
            return s * (3 * d * d + 0.1)
        if kind == "atan":
            return s * 4.0 / (1.0 + 16.0 * d * d)
        if kind == "exp":
            return s * math.exp(max(-300.0, min(300.0, d)))
        if kind == "sin":
            return 3.0 * s * math.cos(3.0 * d)
        if kind in ("bowl", "parab"):
            return 2.0 * s * d
        h = 1e-6 * (1.0 + abs(x))
        return (f(x + h) - f(x - h)) / (2.0 * h)
    return d1


def curve(p):
    d1 = slope(p)

    def d2(x):
        h = 1e-5 * (1.0 + abs(x))
        return (d1(x + h) - d1(x - h)) / (2.0 * h)
    return d2


KINDS1 = ["lin", "cub", "cub", "atan", "exp", "step", "stair", "ramp", "plateau", "pole", "root3", "sin", "noisy", "const", "bowl", "parab", "sin", "exp"]


def gen1(rng):
    return {"kind": rng.choice(KINDS1), "a": rng.choice([0.0, 1.0, -3.0, 250.0, round(rng.uniform(-5, 5), 3)]),
            "s": rng.choice([1.0, -1.0, 1.0, 1e-6, 1e5, -20.0]), "slope": rng.choice([1.0, 1.0, 1.0, 1.0, 0.6, 1.7, -1.0])}


# -- systems ------------------------------------------------------------------------------
def gen_sys(rng, n=None):
    n = n or rng.choice([1, 2, 2, 3])
    A = [[round(rng.uniform(-1, 1), 3) + (2.0 if i == j else 0.0) for j in range(n)] for i in range(n)]
    if rng.random() < 0.05:
        A[-1] = list(A[0])
    return {"n": n, "A": A, "a": [round(rng.uniform(-2, 3), 3) for _ in range(n)], "g": rng.choice(["none", "cube", "sin", "abs", "exp", "log"]),
            "c": rng.choice([0.0, 0.3, 1.0, 3.0]), "slope": rng.choice([1.0, 1.0, 1.0, 0.7, 1.5]), "s": rng.choice([1.0, 1.0, 1e-4, 1e4])}


def base_sys(p):
    n, A, a, c, g = p["n"], p["A"], p["a"], p["c"], p["g"]

    def nl(d):
        if g == "cube":
            return max(-1e90, min(1e90, d)) ** 3
        if g == "sin":
            return math.sin(3.0 * d)
        if g == "abs":
            return abs(d)
        if g == "exp":
            return math.exp(max(-200.0, min(200.0, d))) - 1.0
        if g == "log":
            return math.log(d + 2.5) - math.log(2.5)        # raises by itself outside its domain
        return 0.0

    def f(x):
        d = [float(xi) - ai for xi, ai in zip(x, a)]
        return [p["s"] * (sum(A[i][j] * d[j] for j in range(n)) + c * nl(d[i])) for i in range(n)]

    def jac(x):
        d = [float(xi) - ai for xi, ai in zip(x, a)]
        J = [[p["s"] * p["slope"] * A[i][j] for j in range(n)] for i in range(n)]
        for i in range(n):
            h = 1e-6
            try:
                J[i][i] += p["s"] * p["slope"] * c * (nl(d[i] + h) - nl(d[i] - h)) / (2 * h)
            except ValueError:
                pass
        return J
    return f, jac


# -- the record -------------------------------------------------------------------------------
class Record:
    """Wraps a function of the user: keeps every argument and reply, misbehaves as scripted."""

    def __init__(self, fn, fault=None, vector=False):
        self.fn, self.fault, self.vector = fn, fault, vector
        self.xs, self.ys, self.fired, self.errors, self.n = [], [], 0, [], 0

    def __call__(self, x, *args, **kw):
        self.n += 1
        if self.n > 200000:
            raise engine.SimAbort("evaluations without end")
        self.xs.append([float(v) for v in x] if self.vector else float(x))
        self.ys.append(None)
        hit = self.hit(x)
        if hit and self.fault[2] == "raise":
            self.fired += 1
            e = ERR[self.fault[3]]("raised by the user's function at evaluation %d" % self.n)
            self.errors.append(e)
            raise e
        y = self.fn(x)
        if hit:
            self.fired += 1
            y = [self.bend(v) for v in y] if isinstance(y, list) else self.bend(y)
        self.ys[-1] = list(y) if isinstance(y, list) else y
        return y

    def hit(self, x):
        f = self.fault
        if f is None:
            return False
        mode, k = f[0], f[1]
        v = float(x[0]) if self.vector else float(x)
        return {"at": self.n == k, "from": self.n >= k, "every": self.n % (k + 1) == 0, "pair": self.n in (k, k + 1),
                "above": v > k, "below": v < k, "burst": k <= self.n < k + 6}[mode]

    def bend(self, y):
        how = self.fault[3]
        if how == "nan":
            return float("nan")
        if how == "inf":
            return float("inf")
        if how == "-inf":
            return float("-inf")
        if how == "neg":
            return -y
        if how == "noise":
            return y * (1.0 + 0.3 * hashed(self.n, y))
        if how == "const":
            return 0.37
        if how == "big":
            return y * 1e12
        if how == "small":
            return y * 1e-9
        return y

    def values_at(self, x):
        return [y for a, y in zip(self.xs, self.ys) if a == x and y is not None]


def gen_fault(rng, raising, p):
    mode = rng.choice(["at", "at", "at", "from", "every", "pair", "burst", "above", "below"])
    if mode in ("above", "below"):
        a = p["a"][0] if isinstance(p["a"], list) else p["a"]
        k = round(a + rng.choice([0.0, 0.1, -0.1, 1.0, -1.0, 0.5, -0.5]), 3)
    else:
        k = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20])
    if raising:
        return [mode, k, "raise", rng.choice(sorted(ERR))]
    return [mode, k, "bend", rng.choice(["nan", "nan", "inf", "-inf", "neg", "noise", "noise", "const", "big", "small"])]


# -- solvers: options -------------------------------------------------------------------------
XT = [1e-12, 1e-9, 1e-6, 1e-3]
YT = [None, None, 1e-9, 1e-5, 1e-2]


def around(rng, p):
    return p["a"] + rng.choice([0.0, 0.3, -0.3, 1.0, -1.0, 3.0, -3.0, 1e-3]) * rng.choice([1.0, rng.random()])


def opt_bracket(rng, p):
    w = rng.choice([0.5, 1.0, 3.0, 20.0])
    lo, hi = p["a"] - w * rng.random(), p["a"] + w * rng.random()
    if rng.random() < 0.1:
        lo = hi - 0.1 * w
    if rng.random() < 0.15:
        lo, hi = hi, lo
    o = {"a": lo, "b": hi, "xtol": rng.choice(XT), "maxiter": rng.choice([100, 100, 100, 40, 7, 1])}
    return o


def opt_bisect(rng, p):
    o = opt_bracket(rng, p)
    o["ytol"] = rng.choice(YT)
    return o


def opt_brenth(rng, p):
    o = opt_bisect(rng, p)
    o["q"] = rng.random() < 0.3
    o["given"] = rng.choice(["", "", "", "a", "b", "ab"])
    return o


def bounds(rng, p, o):
    if rng.random() < 0.5:
        o["low"] = min(o["x0"], p["a"] - rng.choice([0.0, 0.5, 2.0, -0.4, 30.0]))
        o["low"] = min(o["low"], o.get("x1", o["x0"]))
    if rng.random() < 0.5:
        o["high"] = max(o["x0"], p["a"] + rng.choice([0.0, 0.5, 2.0, -0.4, 30.0]))
        o["high"] = max(o["high"], o.get("x1", o["x0"]))
    return o


def opt_secant(rng, p):
    o = {"x0": around(rng, p), "maxiter": rng.choice([100, 100, 30, 5, 1])}
    if rng.random() < 0.3:
        o["x1"] = around(rng, p)
    m = rng.choice(["x", "y", "xy", "xy", "yx"])
    o["xtol"] = rng.choice([1.48e-8] + XT) if "x" in m else None
    o["ytol"] = rng.choice([1e-9, 1e-5, 1e-2]) if "y" in m else None
    if m == "yx":
        o["require_xtol"] = False
    o["require_eval"] = rng.random() < 0.5
    o["bisection"] = rng.random() < 0.5
    o["damping"] = rng.choice([1.0, 1.0, 1.0, 0.7, 1.3])
    o["additional_guesses"] = rng.random() < 0.3
    return bounds(rng, p, o)


def opt_newton(rng, p):
    o = opt_secant(rng, p)
    o.pop("x1", None)
    o["ders"] = rng.choice(["separate", "included", "separate2", "included2"])
    return o


def opt_halley(rng, p):
    o = opt_secant(rng, p)
    for k in ("x1", "additional_guesses", "require_xtol"):
        o.pop(k, None)
    if o["xtol"] is None and rng.random() < 0.5:
        o["xtol"] = 1.48e-8
    return o


def opt_onesided(rng, p):
    o = {"x0": p["a"] + rng.uniform(0.1, 3), "x_flat": p["a"] - rng.uniform(0.5, 4), "maxiter": rng.choice([100, 30, 5])}
    m = rng.choice(["y", "y", "xy", "x"])
    o["xtol"] = rng.choice(XT) if "x" in m else None
    o["ytol"] = rng.choice([1e-9, 1e-5, 1e-2]) if "y" in m else None
    if rng.random() < 0.3:
        o["y_flat"] = "given"
    return o


def start(rng, p):
    return [ai + rng.choice([0.0, 0.2, -0.2, 1.0, -1.0, 2.5]) * rng.random() for ai in p["a"]]


def tols(rng, o):
    m = rng.choice(["x", "y", "xy"])
    o["xtol"] = rng.choice([1e-12, 1e-9, 1e-6, 1e-3]) if "x" in m else None
    o["ytol"] = rng.choice([1e-9, 1e-5, 1e-2]) if "y" in m else None
    return o


def opt_nsys(rng, p):
    o = tols(rng, {"x0": start(rng, p), "maxiter": rng.choice([100, 100, 40, 5, 2, 1])})
    o["damping"] = rng.choice([1.0, 1.0, 0.7])
    o["line_search"] = rng.random() < 0.6
    o["require_progress"] = rng.random() < 0.3
    o["check_numbers"] = rng.random() < 0.5
    o["Armijo"] = rng.random() < 0.3
    o["jac_also"] = rng.random() < 0.4
    o["with_point"] = rng.random() < 0.2
    return o


def opt_homotopy(rng, p):
    o = {"x0": start(rng, p), "maxiter": rng.choice([200, 60, 12]), "xtol": rng.choice([1e-8, 1e-5]), "lambd_step": rng.choice([0.1, 0.3, 1.0]),
         "terminal_xtol": rng.choice([1e-10, 1e-7])}
    if rng.random() < 0.2:
        o["ytol"] = o["terminal_ytol"] = 1e-5
    return o


def opt_fixed(rng, p):
    o = tols(rng, {"x0": start(rng, p), "maxiter": rng.choice([100, 40, 5, 1])})
    o["damping"] = rng.choice([1.0, 0.5, 0.2])
    o["check_numbers"] = rng.random() < 0.3
    o["require_progress"] = rng.random() < 0.2
    return o


def opt_broyden(rng, p):
    return {"x0": start(rng, p), "xtol": rng.choice([1e-9, 1e-5]), "maxiter": rng.choice([100, 20, 3])}


def opt_iface(rng, p):
    return {"x0": start(rng, p), "method": rng.choice(["newton_system", "newton_system_line_search", "newton_system_line_search_progress",
                                                      "homotopy_solver", "broyden2_python", "fixed_point", "fixed_point_aitken", "fixed_point_gdem",
                                                      "fixed_point_anderson", "newton_minimize"]),
            "xtol": rng.choice([1e-9, 1e-6]), "ytol": rng.choice([None, None, 1e-5]), "maxiter": rng.choice([100, 30]),
            "jacobian_method": rng.choice(["python", "analytical"])}


def opt_minimize(rng, p):
    o = {"x0": start(rng, p), "xtol": rng.choice([1e-4, 1e-8]), "ftol": rng.choice([1e-4, 1e-8]), "maxiter": rng.choice([200, 50, 5])}
    if rng.random() < 0.5:
        o["low"] = [x - rng.choice([0.0, 0.01, 1.0]) for x in o["x0"]]
        if rng.random() < 0.8:
            o["high"] = [x + rng.choice([0.0, 0.01, 1.0]) for x in o["x0"]]
    elif rng.random() < 0.2:
        o["high"] = [x + rng.choice([0.0, 0.01, 1.0]) for x in o["x0"]]
    o["adaptive"] = rng.random() < 0.3
    return o


def opt_nmin(rng, p):
    return tols(rng, {"x0": start(rng, p), "maxiter": rng.choice([100, 20, 3, 1]), "damping": rng.choice([1.0, 0.7]),
                      "also": rng.choice(["", "jac", "hess"])})


def opt_quad(rng, p):
    a = p["a"] - rng.uniform(0, 3)
    return {"a": a, "b": a + rng.choice([0.5, 2.0, 10.0]), "epsrel": rng.choice([1.49e-8, 1e-5]), "epsabs": rng.choice([1.49e-8, 1e-4])}


def opt_deriv(rng, p):
    return {"x0": around(rng, p), "dx": rng.choice([1e-3, 1e-6]), "n": rng.choice([1, 2]), "order": rng.choice([3, 5, 7])}


def opt_jac(rng, p):
    return {"x0": start(rng, p), "perturbation": rng.choice([1e-7, 1e-4])}


def opt_bounding(rng, p):
    pts = [p["a"] + rng.uniform(-3, 3) for _ in range(rng.randint(0, 6))]
    return {"a": p["a"] - 3 - rng.random(), "b": p["a"] + 3 + rng.random(), "pts": pts, "given": rng.choice(["", "a", "b", "ab"]), "omit": rng.choice(["", "", "none", "empty"])}


def opt_bounded(rng, p):
    o = tols(rng, {"x0": start(rng, p), "maxiter": rng.choice([60, 20, 3]), "line_search": rng.random() < 0.5, "how": rng.choice(["func", "f_jac", "f_jac_one"])})
    o["low"] = [x - rng.choice([0.01, 1.0, 30.0]) for x in o["x0"]]
    o["high"] = [x + rng.choice([0.01, 1.0, 30.0]) for x in o["x0"]]
    return o


ONE, SYS = "one", "sys"
SOLVERS = {
    "bisect": (ONE, opt_bisect), "ridder": (ONE, opt_bracket), "brenth": (ONE, opt_brenth), "secant": (ONE, opt_secant),
    "newton": (ONE, opt_newton), "halley": (ONE, opt_halley), "one_sided_secant": (ONE, opt_onesided),
    "newton_system": (SYS, opt_nsys), "homotopy_solver": (SYS, opt_homotopy), "fixed_point": (SYS, opt_fixed),
    "fixed_point_anderson": (SYS, opt_fixed), "fixed_point_aitken": (SYS, opt_fixed), "fixed_point_gdem": (SYS, opt_fixed), "fixed_point_anderson_residual": (SYS, opt_fixed),
    "broyden2": (SYS, opt_broyden), "SolverInterface": (SYS, opt_iface), "nelder_mead": (SYS, opt_minimize), "newton_minimize": (SYS, opt_nmin),
    "quad_adaptive": (ONE, opt_quad), "derivative": (ONE, opt_deriv), "jacobian": (SYS, opt_jac), "hessian": (SYS, opt_jac),
    "best_bounding_bounds": (ONE, opt_bounding), "quad": (ONE, opt_quad), "nquad": (ONE, opt_quad), "dblquad": (ONE, opt_quad),
    "bounded_system": (SYS, opt_bounded),
}
WEIGHT = {"newton": 4, "secant": 4, "newton_system": 6, "brenth": 3, "bisect": 2, "halley": 3, "SolverInterface": 3, "nelder_mead": 2}


def gen_job(rng, solver, raising):
    kind, opt = SOLVERS[solver]
    p = gen1(rng) if kind == ONE else gen_sys(rng)
    if solver == "one_sided_secant":
        p["kind"] = rng.choice(["ramp", "ramp", "ramp", rng.choice(KINDS1)])
    if solver.startswith("fixed") and rng.random() < 0.7:
        n = p["n"]          # mostly contracting
        p["A"] = [[(1.0 if i == j else 0.0) + 0.3 * rng.uniform(-1, 1) for j in range(n)] for i in range(n)]
        p["s"], p["c"] = 1.0, rng.choice([0.0, 0.1])
    o = opt(rng, p)
    if solver in ("nquad", "dblquad"):
        p["kind"] = rng.choice(["lin", "cub", "exp", "atan", "bowl"])
        p["s"] = 1.0
    if solver == "fixed_point_anderson":
        p["s"], o["ytol"], o["xtol"] = 0.3, None, o["xtol"] or 1e-9     # it takes the next point from the function, and its ytol is not one on a residual
    if solver == "SolverInterface" and o["method"].startswith("fixed") and rng.random() < 0.8:
        n = p["n"]
        p["A"] = [[(1.0 if i == j else 0.0) + 0.3 * rng.uniform(-1, 1) for j in range(n)] for i in range(n)]
        p["s"], p["c"] = -1.0, rng.choice([0.0, 0.1])
    fault = gen_fault(rng, raising, p)
    which = "f"
    if solver in ("newton", "newton_system", "homotopy_solver", "broyden2", "newton_minimize", "SolverInterface") and rng.random() < 0.25:
        which = "jac"
    if rng.random() < (0.05 if raising else 0.3):
        fault = None
    return {"solver": solver, "fn": p, "opt": o, "fault": fault, "which": which}


# -- running ------------------------------------------------------------------------------------
def scalarise(f):
    return lambda x: sum(v * v for v in f(x))


def records(job):
    p, s = job["fn"], job["solver"]
    ff = job["fault"] if job["which"] == "f" else None
    fj = job["fault"] if job["which"] == "jac" else None
    if SOLVERS[s][0] == ONE:
        return Record(base1(p), ff), Record(slope(p), fj), None
    f, jac = base_sys(p)
    if s in ("nelder_mead", "hessian"):
        return Record(scalarise(f), ff, True), None, None
    if s == "newton_minimize" or (s == "SolverInterface" and job["opt"]["method"] == "newton_minimize"):
        # a bowl: gradient 2 (x - a) bent by the nonlinearity
        return Record(lambda x: sum((xi - ai) ** 2 for xi, ai in zip(x, p["a"])), ff, True), \
            Record(lambda x: [2.0 * (xi - ai) + p["c"] * 0.1 * math.sin(xi - ai) for xi, ai in zip(x, p["a"])], fj, True), None
    return Record(f, ff, True), Record(jac, fj, True), None


def call(job, F, G, iface=None):
    """The call itself; returns the solver's return value."""
    s, p, o = job["solver"], job["fn"], dict(job["opt"])
    if s in ("bisect", "ridder"):
        a, b = o.pop("a"), o.pop("b")
        return getattr(N, s)(F, a, b, **o)
    if s == "brenth":
        a, b, given = o.pop("a"), o.pop("b"), o.pop("given")
        f = base1(p)
        if "a" in given:
            o["fa"] = f(a)
        if "b" in given:
            o["fb"] = f(b)
        return N.brenth(F, a, b, **o)
    if s == "secant":
        return N.secant(F, o.pop("x0"), **o)
    if s == "newton":
        ders, x0 = o.pop("ders"), o.pop("x0")
        sl, cu = p["slope"], curve(p)
        d1 = lambda x: sl * G(x)            # noqa: E731
        if ders == "separate":
            return N.newton(F, x0, d1, **o)
        if ders == "included":
            return N.newton(lambda x: (F(x), d1(x)), x0, True, **o)
        if ders == "separate2":
            return N.newton(F, x0, d1, fprime2=cu, **o)
        return N.newton(lambda x: (F(x), d1(x), cu(x)), x0, True, fprime2=True, **o)
    if s == "halley":
        sl, cu = p["slope"], curve(p)
        return N.halley(lambda x: (F(x), sl * G(x), cu(x)), o.pop("x0"), **o)
    if s == "one_sided_secant":
        if o.get("y_flat") == "given":
            o["y_flat"] = base1(p)(o["x_flat"])
        return N.one_sided_secant(F, o.pop("x0"), o.pop("x_flat"), **o)
    if s == "newton_system":
        if o.pop("jac_also"):
            return N.newton_system(lambda x: (F(x), G(x)), o.pop("x0"), True, **o)
        return N.newton_system(F, o.pop("x0"), G, **o)
    if s == "homotopy_solver":
        return N.homotopy_solver(F, o.pop("x0"), G, **o)
    if s in ("fixed_point", "fixed_point_aitken", "fixed_point_gdem"):
        return getattr(N, s)(F, o.pop("x0"), **o)
    if s == "fixed_point_anderson":
        o["mixing_param"] = 1.0
        return N.fixed_point_anderson(F, o.pop("x0"), **o)
    if s == "fixed_point_anderson_residual":
        return N.fixed_point_anderson_residual(F, o.pop("x0"), initial_iterations=5, **o)
    if s == "broyden2":
        return N.broyden2(o.pop("x0"), F, G, **o)
    if s == "SolverInterface":
        return iface.solve(o["x0"])
    if s == "nelder_mead":
        return N.nelder_mead(F, o.pop("x0"), **o)
    if s == "newton_minimize":
        n = p["n"]
        hess = lambda x: [[2.0 if i == j else 0.0 for j in range(n)] for i in range(n)]    # noqa: E731
        also = o.pop("also")
        if also == "hess":
            return N.newton_minimize(lambda x: (F(x), G(x), hess(x)), o.pop("x0"), True, True, **o)
        if also == "jac":
            return N.newton_minimize(lambda x: (F(x), G(x)), o.pop("x0"), True, hess, **o)
        return N.newton_minimize(F, o.pop("x0"), G, hess, **o)
    if s == "quad_adaptive":
        return N.quad_adaptive(F, o.pop("a"), o.pop("b"), **o)
    if s == "quad":
        return N.quad(F, o.pop("a"), o.pop("b"), **o)
    if s == "nquad":
        a, b = o["a"], o["b"]
        return N.nquad(lambda x, y: F(x) * math.cos(y), [lambda y: (a, b), lambda: (0.0, 0.5)], epsrel=1e-4, epsabs=1e-4)
    if s == "dblquad":
        a, b = o["a"], o["b"]
        return N.dblquad(lambda y, x: F(x) * math.cos(y), a, b, lambda x: 0.0, lambda x: 0.5, epsrel=1e-4, epsabs=1e-4)
    if s == "bounded_system":
        low, high, how, x0 = o.pop("low"), o.pop("high"), o.pop("how"), o.pop("x0")
        if how == "func":
            f, into, outof = N.translate_bound_func(F, low=low, high=high)
            sln = N.newton_system(f, into(x0), lambda x: N.jacobian(f, x, scalar=False), **o)
        elif how == "f_jac":
            f, into, outof = N.translate_bound_f_jac(F, G, low=low, high=high)
            sln = N.newton_system(f, into(x0), True, **o)
        else:
            f, into, outof = N.translate_bound_f_jac(lambda x: (F(x), G(x)), True, low=low, high=high)
            sln = N.newton_system(f, into(x0), True, **o)
        return outof(sln[0]), sln[1]
    if s == "derivative":
        return N.derivative(F, o.pop("x0"), **o)
    if s == "jacobian":
        return N.jacobian(F, o.pop("x0"), scalar=False, **o)
    if s == "hessian":
        return N.hessian(F, o.pop("x0"), **o)
    if s == "best_bounding_bounds":
        f = base1(p)
        pts = [(x, f(x)) for x in o["pts"]]
        kw = {"xs_pos": [x for x, y in pts if y > 0], "ys_pos": [y for x, y in pts if y > 0],
              "xs_neg": [x for x, y in pts if y < 0], "ys_neg": [y for x, y in pts if y < 0]}
        for k in ("pos", "neg"):
            if not kw["xs_" + k] and o["omit"] == "none":
                kw["xs_" + k] = kw["ys_" + k] = None
        if "a" in o["given"]:
            kw["fa"] = f(o["a"])
        if "b" in o["given"]:
            kw["fb"] = f(o["b"])
        return N.best_bounding_bounds(o["a"], o["b"], F, **kw)
    raise KeyError(s)


def make_iface(job, F, G):
    o = {k: v for k, v in job["opt"].items() if k != "x0"}
    if o["method"] == "newton_minimize":
        o["scalar_objective"] = True
        o.pop("jacobian_method")
    jac = G if o.get("jacobian_method") == "analytical" else None
    return N.SolverInterface(objf=F, jac=jac, **o)


def perform(job, iface=None):
    """(outcome, F, G): outcome is ("V", value) or ("E", exception)."""
    F, G, _ = records(job)
    if job["solver"] == "SolverInterface":
        if iface is None:
            iface = make_iface(job, F, G)
        else:
            iface.objf_original = F
            if iface.original_jac is not None:
                iface.original_jac = G
                iface.solver_analytical_jac = G
    try:
        v = ("V", call(job, F, G, iface))
    except engine.SimAbort:
        v = ("abort", None)
    except BaseException as e:
        v = ("E", e)
    return v, F, G, iface


# -- judging a normal return ----------------------------------------------------------------
def fin(y):
    return y is not None and y == y and abs(y) != float("inf")


def l1(v):
    return sum(abs(t) for t in v)


def l2(v):
    return math.sqrt(sum(t * t for t in v))


def bracket_verdict(job, r, F):
    o, s = job["opt"], job["solver"]
    lo, hi = min(o["a"], o["b"]), max(o["a"], o["b"])
    seen = [(x, y) for x, y in zip(F.xs, F.ys) if y is not None]
    if s == "brenth":
        f = base1(job["fn"])
        seen += [(o[k], f(o[k])) for k in o["given"]]
    ys = [y for x, y in seen if x == r]
    if not ys:
        return "returned %r, which was never evaluated" % r
    if any(y == 0.0 for y in ys):
        return None
    rtol = {"bisect": 2.3e-16, "ridder": 8.9e-16, "brenth": 4.5e-16}[s]
    W = 2.0 * (o["xtol"] + 4.0 * rtol * abs(r)) * 1.01
    near = [x for x, y in seen if abs(x - r) <= W and any(y * q < 0.0 or (y < 0) != (q < 0) for q in ys)]
    if not near:
        return "returned %r where the function was %r, with no change of sign within %.3g of it" % (r, ys[-1], W)
    if o.get("ytol") is not None and not any(abs(y) < o["ytol"] for y in ys):
        return "returned %r where the function was %r, not within ytol=%r" % (r, ys[-1], o["ytol"])
    return None


def open_verdict(job, r, F, G):
    """secant, newton, halley: the stopping rule on the recorded values, and how far the answer may be from the last evaluation."""
    o, s = job["opt"], job["solver"]
    if not fin(r):
        return "returned %r" % r
    if "low" in o and r < o["low"] or "high" in o and r > o["high"]:
        return "returned %r outside the bounds" % r
    got = F.values_at(r)
    if any(y == 0.0 for y in got):
        return None
    if o["require_eval"] and not got:
        return "returned %r, which was never evaluated although require_eval was asked for" % r
    why = None
    for x, y in [(F.xs[-1], F.ys[-1])] * (not o["require_eval"]) + [(r, y) for y in got]:
        w = open_stop(job, r, x, y, F, G)
        if w is None:
            return None
        why = why or w
    return why


def open_stop(job, r, x, y, F, G):
    """Does r follow from having stopped at x with the value y?"""
    o, s = job["opt"], job["solver"]
    xtol, ytol = o["xtol"], o["ytol"]
    need_x = xtol is not None and (ytol is None or o.get("require_xtol", True))
    if not fin(y):
        return "returned %r after the function was %r at %r" % (r, y, x)
    if ytol is not None and not abs(y) <= ytol:
        return "returned %r although the function was %r at %r, not within ytol=%r" % (r, y, x, ytol)
    step = None
    if s == "secant":
        if need_x and not any(abs(x - v) <= abs(xtol * v) * 1.0001 for v in F.xs[:-1]):
            return "returned %r although no two points were within xtol=%r" % (r, xtol)
        if need_x and ytol is None and x in (o.get("low"), o.get("high")) and not any(v != x and abs(x - v) <= abs(xtol * v) * 1.0001 for v in F.xs[:-1]):
            return "returned %r, a bound it was held at, where the function was %r (xtol=%r)" % (r, y, xtol)
        steps = [abs(y * (x - a) / (y - b)) for a, b in list(zip(F.xs[:-1], F.ys[:-1]))[0 if o["additional_guesses"] else -2:] if fin(b) and b != y]
        if steps:
            step = abs(o["damping"]) * max(steps)
    else:
        g = job["fn"]["slope"] * G.ys[-1] if G.ys and fin(G.ys[-1]) and len(G.ys) == len(F.ys) else None
        if need_x and r != x and abs(r - x) > abs(xtol * max(abs(x), abs(r))) * 1.0001:
            return "returned %r, %.3g away from the last point evaluated, beyond xtol=%r" % (r, abs(r - x), xtol)
        if g and x == F.xs[-1] and s == "newton" and "2" not in o["ders"]:
            step = abs(o["damping"] * y / g)
            if need_x and not o["bisection"] and F.xs.count(x) == 1 and step > 4.0 * abs(xtol * max(abs(x), abs(r))) + 1e-300 and not (
                    ytol is not None and any(k in o and abs(r - o[k]) <= abs(xtol * o[k]) * 1.0001 for k in ("low", "high"))):
                return "returned %r where the function was %r and the next step %.3g, beyond xtol=%r" % (r, y, step, xtol)
    if need_x and abs(r - x) <= abs(xtol * max(abs(x), abs(r))) * 1.0001:
        return None
    if r != x and step is not None and abs(r - x) > 1.5 * step + abs(x) * 1e-14 + 1e-300:
        return "returned %r, far from the last point evaluated %r and the step %.3g that follows from it" % (r, x, step)
    return None


def at_point(F, x):
    v = F.values_at([float(t) for t in x])
    return v


def residual_ok(y, xtol, ytol):
    if y is None or any(t != t for t in y):
        return False
    return (xtol is None or l2(y) <= xtol * (1 + 1e-12)) and (ytol is None or l1(y) <= ytol * (1 + 1e-12))


def system_verdict(job, x, F, xtol, ytol, exact=True):
    if not isinstance(x, list) or len(x) != job["fn"]["n"]:
        return "returned %r" % (x,)
    ys = at_point(F, x)
    if not ys:
        return "returned %r, which was never evaluated" % x
    if not any(residual_ok(y, xtol, ytol) for y in ys):
        return "returned %r where the function was %r (xtol=%r, ytol=%r)" % (x, ys[-1], xtol, ytol)
    return None


def drift(F):
    """The last homotopy is the function up to the rounding of its parameter: 1 - lambda <= 1e-15."""
    return 2e-15 * l1(F.ys[0]) if F.ys and F.ys[0] else 0.0


def next_verdict(job, x, F, xtol, ytol, damping=None):
    """Fixed-point iterations return the iterate after the last evaluation."""
    y = F.ys[-1]
    if not any(residual_ok(v, xtol, ytol) for v in F.ys[-1:]):
        ys = at_point(F, x)
        if any(residual_ok(v, xtol, ytol) for v in ys):
            return None
        return "returned %r although the last residual was %r (xtol=%r, ytol=%r)" % (x, y, xtol, ytol)
    if any(t != t or abs(t) == float("inf") for t in x):
        return "returned %r" % (x,)
    if damping is not None:
        want = [a - b * damping for a, b in zip(F.xs[-1], y)]
        first = [a - b for a, b in zip(F.xs[-1], y)]
        if x != F.xs[-1] and not any(all(abs(g - w) <= 1e-12 * (1 + abs(w)) for g, w in zip(x, c)) for c in (want, first)):
            return "returned %r, which is not the iterate %r that follows the last evaluation" % (x, want)
    return None


LIMIT = {"ridder": lambda m: 2 * m + 2, "bisect": lambda m: m + 2, "brenth": lambda m: m + 2}


def verdict(job, out, F, G):
    """Text of what is wrong with a normal return (and with where the function was evaluated), or None."""
    s, o, p = job["solver"], job["opt"], job["fn"]
    # where it was evaluated
    if s in ("bisect", "ridder", "brenth", "quad_adaptive"):
        lo, hi = min(o["a"], o["b"]), max(o["a"], o["b"])
        slack = o.get("xtol", 0.0) + 4e-16 * max(abs(lo), abs(hi))
        for x in F.xs:
            if not lo - slack <= x <= hi + slack:
                return ["out-of-bounds", "the function was evaluated at %r outside [%r, %r]" % (x, lo, hi)]
    if s in ("secant", "newton", "halley"):
        for x in F.xs:
            if x == x and ("low" in o and x < o["low"] or "high" in o and x > o["high"]):
                return ["out-of-bounds", "the function was evaluated at %r outside the bounds %r, %r" % (x, o.get("low"), o.get("high"))]
    if s == "bounded_system":
        for x in F.xs + G.xs:
            if any(v == v and not a - 1e-14 * (abs(a) + abs(b)) <= v <= b + 1e-14 * (abs(a) + abs(b)) for a, v, b in zip(o["low"], x, o["high"])):
                return ["out-of-bounds", "the function was evaluated at %r outside the bounds %r, %r" % (x, o["low"], o["high"])]
    if s == "nelder_mead":
        for x in F.xs:
            if "low" in o and any(a < b for a, b in zip(x, o["low"])) or "high" in o and any(a > b for a, b in zip(x, o["high"])):
                return ["out-of-bounds", "the function was evaluated at %r outside the bounds %r, %r" % (x, o.get("low"), o.get("high"))]
    # how often
    m = o.get("maxiter")
    if m is not None:
        lim = LIMIT.get(s, lambda m: 130 * (m + 3) if s in ("newton_system", "bounded_system", "SolverInterface", "homotopy_solver", "one_sided_secant", "secant") else 3 * m + 140)(m)
        if F.n > lim:
            return ["too-many-evaluations", "%d evaluations with maxiter=%d" % (F.n, m)]
    if out[0] == "abort":
        return ["too-many-evaluations", "the solver does not stop"]
    if out[0] != "V":
        return None
    r = out[1]
    t = None
    if s in ("bisect", "ridder", "brenth"):
        t = bracket_verdict(job, r, F)
    elif s in ("secant", "newton", "halley"):
        t = open_verdict(job, r, F, G)
    elif s == "one_sided_secant":
        ys = F.values_at(r)
        if not ys:
            t = "returned %r, which was never evaluated" % r
        elif not fin(ys[-1]):
            t = "returned %r where the function was %r" % (r, ys[-1])
        elif o["ytol"] is not None and not any(abs(y) < o["ytol"] for y in ys):
            t = "returned %r where the function was %r (ytol=%r)" % (r, ys[-1], o["ytol"])
    elif s == "newton_system":
        x = r[0]
        if o["xtol"] is not None or o["ytol"] is not None:
            t = system_verdict(job, x, F, o["xtol"], o["ytol"])
        if t is None and o["with_point"] and len(r) != 4:
            t = "with_point=True gave %d results" % len(r)
        if t is None and r[1] > max(o["maxiter"], 1):
            t = "%d iterations reported, maxiter=%d" % (r[1], o["maxiter"])
    elif s == "bounded_system":
        t = system_verdict(job, r[0], F, o["xtol"], o["ytol"])
    elif s == "homotopy_solver":
        t = system_verdict(job, r[0], F, o["terminal_xtol"] + drift(F), o.get("terminal_ytol") and o["terminal_ytol"] + drift(F))
    elif s in ("fixed_point", "fixed_point_aitken", "fixed_point_gdem"):
        t = next_verdict(job, r[0], F, o["xtol"], o["ytol"], o["damping"] if s == "fixed_point" else None)
    elif s == "fixed_point_anderson":
        x, last = r[0], F.xs[-1]
        if any(not abs(v) < float("inf") for v in x):
            t = "returned %r" % (x,)
        elif any(abs(v - w) > o["xtol"] * abs(w) * 1.0001 for v, w in zip(x, last)):
            t = "returned %r, further from the last point %r than xtol=%r" % (x, last, o["xtol"])
    elif s == "fixed_point_anderson_residual":
        t = next_verdict(job, r[0], F, None, min(v for v in (o["xtol"], o["ytol"]) if v is not None))
    elif s == "broyden2":
        x = r[0]
        if x != F.xs[-1]:
            t = "returned %r, last evaluated %r" % (x, F.xs[-1])
        elif r[1] < o["maxiter"] and not l1(F.ys[-1]) <= o["xtol"]:
            t = "stopped early at %r with residual %r (xtol=%r)" % (x, F.ys[-1], o["xtol"])
    elif s == "SolverInterface":
        m = o["method"]
        if m in ("newton_system", "newton_system_line_search", "newton_system_line_search_progress"):
            t = system_verdict(job, r, F, o["xtol"], o["ytol"])
        elif m == "homotopy_solver":
            t = system_verdict(job, r, F, 1e-10 + drift(F), None)
        elif m in ("fixed_point", "fixed_point_aitken", "fixed_point_gdem"):
            t = next_verdict(job, r, F, o["xtol"], o["ytol"])
        elif m == "fixed_point_anderson":
            t = next_verdict(job, r, F, None, o["xtol"] if o["ytol"] is None else min(o["xtol"], o["ytol"]))
    elif s == "nelder_mead":
        x, fv, it = r
        ys = F.values_at(x)
        vals = [y for y in F.ys if y is not None]
        if not any(y == fv for y in ys):
            t = "returned the value %r for %r, where the function was %r" % (fv, x, ys[-1:])
        elif all(y == y for y in vals) and fv > min(vals):
            t = "returned %r although %r was seen" % (fv, min(vals))
        elif it > o["maxiter"]:
            t = "%d iterations, maxiter=%d" % (it, o["maxiter"])
    elif s == "newton_minimize":
        ys = at_point(G, r[0])
        if not ys:
            t = "returned %r, where the gradient was never evaluated" % (r[0],)
        elif not any(residual_ok(y, o["xtol"], o["ytol"]) for y in ys):
            t = "returned %r where the gradient was %r (xtol=%r, ytol=%r)" % (r[0], ys[-1], o["xtol"], o["ytol"])
    elif s == "best_bounding_bounds":
        f = base1(p)
        lo, hi, fa, fb = r
        known = {o["a"]: f(o["a"]), o["b"]: f(o["b"])}
        known.update((x, f(x)) for x in o["pts"])
        for x, y in zip(F.xs, F.ys):
            known[x] = y
        if known.get(lo, "never evaluated") != fa or known.get(hi, "never evaluated") != fb:
            t = "returned %r with values %r, %r; they were %r, %r" % ((lo, hi), fa, fb, known.get(lo), known.get(hi))
        elif fa * fb > 0:
            t = "returned ends of equal sign %r, %r" % (fa, fb)
        else:
            ea, eb = known[o["a"]], known[o["b"]]
            if ea * eb < 0 and (abs(fa) > abs(ea) or abs(fb) > abs(eb)):
                t = "returned ends further from the root (%r, %r) than those it was given (%r, %r)" % (fa, fb, ea, eb)
    return ["bad-answer", "%s: %s" % (s, t)] if t else None
