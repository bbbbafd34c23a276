"""Policies of a single token."""
from harness import core
from harness.gen import sample
from harness.props.pollib import WANT, tokens


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Policies", cfg="MC_PoliciesToken.cfg"), 10 ** 6 if th else 2500), WANT, "Tr_Policies", "JudgeC22", "model")
    c.run([tokens(rng) for _ in range(100000 if th else 5000)], WANT, "Tr_Policies", "JudgeC22", "random")
