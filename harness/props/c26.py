"""Fields defined as Structured Fields."""
from harness import core
from harness.gen import *
from harness.props import sflib

WANT = {"parsed": 1, "caching": 1, "vars": ["missing_fields"]}


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_SfFields"), 10 ** 6 if th else 2500), WANT, "Tr_SfFields", "JudgeC26", "model")
    c.run([sflib.message(rng) for _ in range(60000 if th else 4000)], WANT, "Tr_SfFields", "JudgeC26", "random")
