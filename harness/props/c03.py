from harness import core
from harness.props.lifelib import *


def check(c):
    rng = c.rng
    ks = c.model("MC_Life", sub={"MaxChunks": 3} if core.THOROUGH else None)
    coded = [k for k in ks if any(h[0] == "Content-Encoding" for h in k["cfg"]["headers"])]
    judge(c, "JudgeC03", [from_model(k) for k in (coded if core.THOROUGH else sample(rng, coded, 1500))], "model")
    n = 40000 if core.THOROUGH else 2500
    judge(c, "JudgeC03", [small(rng) for _ in range(n)], "random")
    judge(c, "JudgeC03", [real(rng) for _ in range(n // 4)], "compressed")
    big = [huge("gzip", MAXD, 0), huge("gzip", MAXD + 1, 4096), huge("br", MAXD + (1 << 20), 1)]
    if core.THOROUGH:
        big += [huge("gzip", MAXD + 1, 0), huge("gzip", MAXD, 1000), huge("br", MAXD, 7), huge("br", MAXD, 0), huge("gzip", 3 * MAXD, 512), huge("br", MAXD * 2, 16)]
    judge(c, "JudgeC03", big, "limit")
