"""An error of the user's function reaches the caller, or the solver carries on with points that were evaluated."""
import json
import os
import sys
import warnings

from .. import boot, runner, solversim as S

PROPERTY = "C14"
RUNS = {"quick": 20000, "thorough": 600000}
RULE = ("a run is 3 jobs: a solver with random options on a random function of which the adversary makes scripted evaluations raise (one of twelve kinds of "
        "error, interrupts and out-of-memory included; once, from then on, periodically, in a burst or in a region; in the function or in its derivative); "
        "the outcome is judged on the recorded evaluations and the undisturbed call is then made again on the same objects; non-trivial if an error was raised")
MEASURE = "distinct (solver, options, function, script)"
REAL = ["the solvers, minimisers, integrators and differentiators of fluids.numerics"]
STUBS = ["the user's function and derivative (scripted)"]
ASSUMPTIONS = ["user functions are those of dst/solversim.py, raising as scripted"]
TIMEOUT = 60.0

# their own errors a solver may report when it gave up retrying
OWN = (ValueError, ArithmeticError)
# which are never a report but a slip of the solver's own
SLIPS = (NameError, TypeError, AttributeError, LookupError, RecursionError, AssertionError)


def prepare(tier, seed):
    os.environ["TZ"] = "UTC"
    if "fluids" in sys.modules:
        raise runner.HarnessError("the library was loaded before it could be instrumented")
    boot.install_finder()
    import fluids.numerics
    import scipy.integrate  # noqa: F401
    S.N = fluids.numerics
    warnings.simplefilter("ignore")


NAMES = [n for n in S.SOLVERS for _ in range(S.WEIGHT.get(n, 1))] + ["newton_system"] * 6 + ["homotopy_solver", "SolverInterface"] * 2


def generate(rng, idx):
    jobs = []
    for _ in range(3):
        j = S.gen_job(rng, rng.choice(NAMES), True)
        jobs.append(j)
    return {"jobs": jobs}


def retries(job, F, G):
    """Whether the solver may go on after the error that was raised: only the trials of a line search and the steps of a homotopy."""
    s, o = job["solver"], job["opt"]
    if s == "newton_system":
        return o["line_search"] and F.n > 1 and (job["which"] == "f" or o["jac_also"])
    if s == "homotopy_solver":
        return F.n > 1
    if s == "bounded_system":
        return o["line_search"] and F.n > 1
    if s == "SolverInterface":
        return o["method"] in ("homotopy_solver", "newton_system_line_search", "newton_system_line_search_progress") and F.n > 1
    return False


def text(out, F):
    if out[0] == "V":
        return "V %r at %r" % (out[1], F.xs)
    if out[0] == "E":
        return "E %s %s at %r" % (type(out[1]).__name__, out[1], F.xs)
    return out[0]


def judge(job, out, F, G):
    errors = F.errors + (G.errors if G else [])
    if not errors:
        return None
    if out[0] == "abort":
        return ["endless", "%s does not stop" % job["solver"]]
    hard = [e for e in errors if isinstance(e, S.HARD)]
    if out[0] == "E":
        e = out[1]
        if any(e is x for x in errors) and (not hard or e is hard[0]):
            return None
        if not retries(job, F, G) or hard:
            return ["error-replaced", "%s raised %s (%s) where the user's function raised %s" % (
                job["solver"], type(e).__name__, str(e)[:80], type((hard or errors)[0]).__name__)]
        if isinstance(e, SLIPS):
            return ["slip", "%s raised %s (%s) after the user's function had raised %s" % (job["solver"], type(e).__name__, str(e)[:80], type(errors[-1]).__name__)]
        if not isinstance(e, OWN + (S.N.UnconvergedError,)):
            return ["error-replaced", "%s raised %s (%s) after the user's function had raised %s" % (
                job["solver"], type(e).__name__, str(e)[:80], type(errors[-1]).__name__)]
    else:
        if hard or not retries(job, F, G):
            return ["error-swallowed", "%s returned %r although the user's function had raised %s" % (job["solver"], out[1], type((hard or errors)[0]).__name__)]
        w = S.verdict(job, out, F, G)
        if w:
            return w
    if G is not None and job["which"] == "f" and G.vector:
        for x in G.xs:
            if x in F.xs and not F.values_at(x):
                return ["derivative-at-failed-point", "%s took the derivative at %r, where the function had raised" % (job["solver"], x)]
    return None


def execute(plan):
    viol, stats, nontriv = [], {"jobs": 0, "returned": 0, "raised": 0, "evaluations": 0}, False
    for job in plan["jobs"]:
        calm = dict(job, fault=None)
        o0, F0, G0, _ = S.perform(calm)
        out, F, G, iface = S.perform(job)
        stats["jobs"] += 1
        stats["returned" if out[0] == "V" else "raised"] += 1
        stats["evaluations"] += F.n + (G.n if G else 0)
        fired = F.fired + (G.fired if G else 0)
        if fired:
            k = "fault:raise-" + job["fault"][3]
            stats[k] = stats.get(k, 0) + fired
            nontriv = True
        w = judge(job, out, F, G)
        if w is None:
            o1, F1, G1, _ = S.perform(calm, iface)
            if text(o0, F0) != text(o1, F1):
                w = ["left-behind", "%s after the error: %s; before: %s" % (job["solver"], text(o1, F1)[:200], text(o0, F0)[:200])]
        if w:
            viol.append([w[0], "%s (%s, %d errors raised)" % (w[1], json.dumps(job, sort_keys=True)[:700], fired)])
    return {"violations": viol[:4], "key": json.dumps(plan, sort_keys=True), "stats": stats, "simtime": 0.0, "nontrivial": nontriv}


def shrink(plan):
    for i in range(len(plan["jobs"])):
        if len(plan["jobs"]) > 1:
            yield {"jobs": [plan["jobs"][i]]}
    if len(plan["jobs"]) == 1:
        j = plan["jobs"][0]
        if j["fault"] is not None and j["fault"][0] not in ("at", "above", "below"):
            yield {"jobs": [dict(j, fault=["at"] + j["fault"][1:])]}
        for k in ("low", "high", "damping", "bisection", "additional_guesses", "line_search", "Armijo", "require_progress", "check_numbers"):
            if k in j["opt"] and j["opt"][k] not in (False, 1.0):
                o = dict(j["opt"])
                if k in ("low", "high"):
                    del o[k]
                else:
                    o[k] = 1.0 if k == "damping" else False
                yield {"jobs": [dict(j, opt=o)]}
