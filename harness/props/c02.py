"""C02: evictions, expiry and clock ties never resurrect an invalidated entry."""
from gen import Profile, histories, SMALL_DT, LONG_DT
import model

RULE = ("a history with losses of backend keys (everything, all or some internal keys, one tag's version, one value) and expiry, mixed "
        "with stores, invalidations and reads, most steps within one clock tick; non-trivial: at least one loss happened and at least "
        "one read judged that a dead entry is missed")
EXAMPLES = {"quick": 700, "thorough": 20000}
ASSUMPTIONS = ["a loss removes whole keys of the backend between two calls; torn values are not generated"]

P = Profile(
    sessions=2, keys=3, tags=["a", "b", "c"], versions=[[None], [None], [None, 2], [3]],
    isos=["READ COMMITTED", "READ COMMITTED", "REPEATABLE READ", "READ UNCOMMITTED"],
    weights={"set": 7, "get": 5, "many": 2, "gosc": 2, "inv": 4, "adv": 1, "evict": 4, "open": 1, "close": 1, "scope": 1},
    dts=[0, 0, 0, 0.5, 1, 4, 5, 59, 60, 86399, 86400, 86401], timeouts=[None, None, None, 1, 60, 200000],
    raises=[None], kinds=["with"], min_ops=8, max_ops=30)


def cases(tier):
    return histories(P)


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["evict"] > 0 and lab["miss_invalidated"] > 0)
