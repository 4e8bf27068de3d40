"""C14: the replication delay is honoured."""
from gen import Profile, histories, scripts, some, ISOS
import model

RULE = ("a history of transactions with a configured delay, stores at instants before, within and after the delay by all threads; "
        "non-trivial: a delayed invalidation fired, or a store within the delay had to be refused, or with READ UNCOMMITTED/READ "
        "COMMITTED an entry stored within the delay was missed after it")
EXAMPLES = {"quick": 900, "thorough": 25000}

P = Profile(
    sessions=2, keys=2, tags=["a", "b", "c"], versions=[[None], [None], [2], [None, 2]],
    isos=ISOS, delays=[1, 2, 4],
    weights={"set": 8, "get": 3, "inv": 4, "adv": 5, "scope": 3, "begin": 2, "finish": 3, "flush": 1, "end": 1, "gosc": 1},
    dts=[0.25, 0.5, 1, 1.5, 2, 2.5, 4, 4.5], timeouts=[None], raises=[None, None, "yes"], max_tags=2,
    wirings=["django", "django", "plain"], kinds=["with", "with", "deco", "all"], min_ops=8, max_ops=30)


def cases(tier):
    return some((2, histories(P)), (1, scripts(P, ["a", "a", "b"], [[None], [None], [2], [None, 0]])))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["tx_end_with_tags"] > 0 and (lab["delayed_inv"] + lab["store_refuse"] > 0))
