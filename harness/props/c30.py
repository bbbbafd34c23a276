"""Compression dictionary transport."""
from harness import core
from harness.gen import *
from harness.props import sflib

WANT = {"parsed": 1, "caching": 1, "vars": []}


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Dict"), 10 ** 6 if th else 3000), WANT, "Tr_SfFields", "JudgeC30", "model")
    c.run([sflib.dictmessage(rng) for _ in range(60000 if th else 4000)], WANT, "Tr_SfFields", "JudgeC30", "random")
