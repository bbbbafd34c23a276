from harness import core
from harness.props.seclib import *

WANT = {"fields": 1, "fld": 1, "vars": ["field_type", "section_size", "field_size"]}


def check(c):
    rng = c.rng
    ks = c.model("MC_Sections", sub={"MaxLines": 3} if core.THOROUGH else None)
    c.run([frame(rng, k["ls"], None, k["kind"]) for k in ks], WANT, "Tr_Sections", "JudgeC04", "model")
    n = 30000 if core.THOROUGH else 2500
    c.run([message(rng, odd=.25) for _ in range(n)], WANT, "Tr_Sections", "JudgeC04", "random")
    scs = []
    for _ in range(n // 20):
        hs = big(rng, lines(rng, 2)) if rng.random() < .7 else lines(rng, 2)
        tr = big(rng, lines(rng, 1)) if rng.random() < .4 else None
        scs.append(frame(rng, hs, tr))
    c.run(scs, WANT, "Tr_Sections", "JudgeC04", "large")
