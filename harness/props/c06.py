from harness import core
from harness.props.seclib import *

WANT = ["parsed"]


def check(c):
    rng = c.rng
    ks = c.model("MC_Sections", sub={"MaxLines": 3} if core.THOROUGH else None)
    c.run([frame(rng, k["ls"], None, k["kind"]) for k in ks], WANT, "Tr_Sections", "JudgeC06", "model")
    # every field the library knows, in both kinds of message, headers and trailers, in several spellings
    scs = []
    for n in NAMES:
        for kind in ("request", "response"):
            for where in ("headers", "trailers"):
                for sp in (SPELL[n], SPELL[n].upper(), "".join(x.upper() if rng.random() < .5 else x.lower() for x in n)):
                    ls = [[sp, value(rng, n)], [sp, value(rng, n)]][:pick(rng, [1, 2])]
                    scs.append(frame(rng, ls if where == "headers" else [], ls if where == "trailers" else None, kind))
    c.run(scs, WANT, "Tr_Sections", "JudgeC06", "every_field")
    n = 40000 if core.THOROUGH else 2500
    c.run([message(rng, odd=.35) for _ in range(n)], WANT, "Tr_Sections", "JudgeC06", "random")
    scs = [{"names": [SPELL[n], SPELL[n].upper(), n] + [x for x in (odd_name(rng) for _ in range(4)) if all(ord(ch) < 128 for ch in x)]} for n in NAMES]
    c.run(scs, WANT, "Tr_Sections", "JudgeDesc", "descriptions", fn=describe)
