from harness import core
from harness.props.lifelib import *


def check(c):
    rng = c.rng
    ks = c.model("MC_Life", sub={"MaxChunks": 3} if core.THOROUGH else None)
    plain = [k for k in ks if not any(h[0] == "Content-Encoding" for h in k["cfg"]["headers"])]
    judge(c, "JudgeC02", [from_model(k) for k in plain], "model")
    n = 40000 if core.THOROUGH else 2500
    judge(c, "JudgeC02", [small(rng) for _ in range(n)], "random")
    judge(c, "JudgeC02", [real(rng) for _ in range(n // 8)], "compressed")
    # the sample's edge, uncoded
    scs = []
    for size in (8191, 8192, 8193, 16384, 40000):
        for how in ("whole", "few", "many", "edge", "edge"):
            sc = {"kind": "response", "top": ["HTTP/1.1", "200", "OK"]}
            scs.append(finish(rng, sc, chop(rng, text(rng, size), how)))
    judge(c, "JudgeC02", scs, "sample")
