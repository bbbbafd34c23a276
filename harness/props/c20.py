"""Strict-Transport-Security."""
from harness import core
from harness.gen import sample
from harness.props.pollib import WANT, hsts


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Policies", cfg="MC_PoliciesSts.cfg"), 10 ** 6 if th else 2500), WANT, "Tr_Policies", "JudgeC20", "model")
    c.run([hsts(rng) for _ in range(100000 if th else 5000)], WANT, "Tr_Policies", "JudgeC20", "random")
