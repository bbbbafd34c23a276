from harness.props.cachelib import check_part


def check(c):
    check_part(c, "fresh", ["MC_CacheTime.cfg"], 4000, 4000, 60000)
