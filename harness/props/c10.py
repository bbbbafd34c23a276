from harness import core
from harness.gen import *
from harness.props.cachelib import check_part

AGES = ["0", "1", "5", "6", "7", "30", "60", "300", "3600", "-3", "x", "", "100000000000", "+6", " 6", "1_0"]


def clock(rng):
    """Date and Age around the response's start time"""
    hs = []
    t = NOW + pick(rng, [0, 4, 5, 6, 7, 10, 30, 60, 300, 3600, 86400]) * pick(rng, [1, -1]) + pick(rng, [0, 1, -1])
    if rng.random() < .95:
        hs.append([casing(rng, "Date"), pick(rng, [imf, imf, rfc850, asctime])(t)])
    else:
        hs.append(["Date", "never"])
    if rng.random() < .7:
        age = pick(rng, AGES) if rng.random() < .5 else str(max(0, NOW - t + pick(rng, [0, 4, 5, 6, -4, -5, -6])))
        hs.append([casing(rng, "Age"), age])
    if rng.random() < .1:
        hs += [["Age", "99"], ["Date", imf(NOW)]]
    if rng.random() < .3:
        hs.append(["Cache-Control", "max-age=60"])
    rng.shuffle(hs)
    rel = request(start=NOW - pick(rng, [0, 1, 9])) if rng.random() < .3 else None
    return response(hs, start=pick(rng, [NOW, NOW, NOW, None]), related=rel)


def check(c):
    check_part(c, "age", ["MC_CacheTime.cfg"], 3000, 2500, 60000)
    c.run([clock(c.rng) for _ in range(60000 if core.THOROUGH else 2500)], ["sm"], "Tr_Dates", "JudgeClock", "clock")
