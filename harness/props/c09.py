from harness.props.cachelib import check_part


def check(c):
    check_part(c, "store", ["MC_CacheStore.cfg"], 4000, 4000, 60000)
