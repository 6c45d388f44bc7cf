"""Whatever the user's function replies, a solver's answer was evaluated, lies in bounds and meets its tolerance."""
import json
import os
import sys
import warnings

from .. import boot, runner, solversim as S

PROPERTY = "C15"
RUNS = {"quick": 24000, "thorough": 600000}
RULE = ("a run is 4 jobs: a solver with random options on a function that is smooth, steep, flat, discontinuous, noisy or rootless, whose replies "
        "an adversary bends at scripted evaluations (sign, noise, huge, tiny, constant, infinite, not a number; once, from then on, periodically, "
        "in a burst or in a region); the answer and every place of evaluation are judged on the recorded replies; non-trivial if a job returned normally or a reply was bent")
MEASURE = "distinct (solver, options, function, script)"
REAL = ["the solvers, minimiser, integrator and differentiators of fluids.numerics"]
STUBS = ["the user's function and derivative (scripted)"]
ASSUMPTIONS = ["user functions are those of dst/solversim.py with their replies bent as scripted"]
RAISING = False
TIMEOUT = 60.0


def prepare(tier, seed):
    os.environ["TZ"] = "UTC"
    if "fluids" in sys.modules:
        raise runner.HarnessError("the library was loaded before it could be instrumented")
    boot.install_finder()
    import fluids.numerics
    S.N = fluids.numerics
    warnings.simplefilter("ignore")


NAMES = [n for n in S.SOLVERS if n not in ("quad", "nquad", "dblquad") for _ in range(S.WEIGHT.get(n, 1))]


def generate(rng, idx):
    return {"jobs": [S.gen_job(rng, rng.choice(NAMES), RAISING) for _ in range(4)]}


def supported(job):
    """Replies the solver is written for."""
    f = job["fault"]
    if f is None or f[2] == "raise":
        return True
    s, how = job["solver"], f[3]
    if how in ("nan", "inf", "-inf") and s in ("bisect", "ridder", "brenth", "one_sided_secant"):
        return False          # for functions with finite values, as SciPy's
    if how == "nan" and s in ("nelder_mead", "best_bounding_bounds"):
        return False
    return True


def execute(plan):
    viol, stats, nontriv = [], {"jobs": 0, "returned": 0, "raised": 0, "evaluations": 0}, False
    for job in plan["jobs"]:
        if not supported(job):
            continue
        out, F, G, _ = S.perform(job)
        stats["jobs"] += 1
        stats["returned" if out[0] == "V" else "raised"] += 1
        stats["evaluations"] += F.n + (G.n if G else 0)
        fired = F.fired + (G.fired if G else 0)
        if fired:
            k = "fault:reply-" + job["fault"][3]
            stats[k] = stats.get(k, 0) + fired
        nontriv = nontriv or bool(fired) or out[0] == "V"
        w = S.verdict(job, out, F, G)
        if w:
            viol.append([w[0], "%s (%s, replies bent %d times)" % (w[1], json.dumps(job, sort_keys=True)[:700], fired)])
    return {"violations": viol[:4], "key": json.dumps(plan, sort_keys=True), "stats": stats, "simtime": 0.0, "nontrivial": nontriv}


def shrink(plan):
    for i in range(len(plan["jobs"])):
        if len(plan["jobs"]) > 1:
            yield {"jobs": [plan["jobs"][i]]}
    j = plan["jobs"][0]
    if len(plan["jobs"]) == 1:
        if j["fault"] is not None:
            yield {"jobs": [dict(j, fault=None)]}
            if j["fault"][0] not in ("at", "above", "below"):
                yield {"jobs": [dict(j, fault=["at"] + j["fault"][1:])]}
        for k in ("low", "high", "damping", "bisection", "additional_guesses", "line_search", "Armijo", "require_progress"):
            if k in j["opt"] and j["opt"][k] not in (False, 1.0):
                o = dict(j["opt"])
                if k in ("low", "high"):
                    del o[k]
                else:
                    o[k] = 1.0 if k == "damping" else False
                yield {"jobs": [dict(j, opt=o)]}
