"""Content-Security-Policy."""
from harness import core
from harness.gen import sample
from harness.props.pollib import WANT, csp


def check(c):
    rng, th = c.rng, core.THOROUGH
    c.run(sample(rng, c.model("MC_Policies", cfg="MC_PoliciesCsp.cfg"), 10 ** 6 if th else 2500), WANT, "Tr_Policies", "JudgeC21", "model")
    c.run([csp(rng) for _ in range(100000 if th else 5000)], WANT, "Tr_Policies", "JudgeC21", "random")
