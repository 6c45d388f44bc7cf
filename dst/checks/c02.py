from . import c01
from .c01 import *  # noqa: F401,F403

PROPERTY = "C02"
RUNS = {"quick": 6000, "thorough": 60000}


def prepare(tier, seed):
    c01.prepare(tier, seed)


def generate(rng, idx):
    plan = c01.generate(rng, idx)
    return plan


def execute(plan):
    return c01.execute(plan, "C02")


def shrink(plan):
    return c01.shrink(plan)
