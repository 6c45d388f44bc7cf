from . import c06
from .c06 import *  # noqa: F401,F403

PROPERTY = "C07"


def prepare(tier, seed):
    c06.prepare(tier, seed)


def generate(rng, idx):
    return c06.generate(rng, idx)


def execute(plan):
    r = c06.execute(plan, "C07")
    r["violations"] = [v for v in r["violations"] if v[0] != "wrong-coordinates"]
    return r


def shrink(plan):
    return c06.shrink(plan)
