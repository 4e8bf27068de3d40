"""C09: nothing cached during a transaction outlives it with the tags it invalidated."""
from gen import Profile, histories, wide, scripts, some, ISOS
import model

RULE = ("a history of transactions of 1-3 threads (nested scopes of several forms, commits and exceptions) with invalidations at any "
        "nesting level and stores by all threads before, between and after them, under all isolation levels and delays; non-trivial: a "
        "transaction that had invalidated tags ended and afterwards a read missed an invalidated entry")
EXAMPLES = {"quick": 800, "thorough": 20000}

P = Profile(
    sessions=3, keys=3, tags=["a", "b", "c"], versions=[[None], [None], [2], [None, 2]],
    isos=ISOS, delays=[0, 0, 0, 1, 3],
    weights={"set": 8, "get": 4, "many": 1, "gosc": 1, "inv": 5, "adv": 1, "scope": 2, "begin": 4, "finish": 4, "flush": 1, "end": 1},
    dts=[0, 0.5, 1, 2, 3, 6], timeouts=[None], raises=[None, None, "yes"], max_tags=2,
    kinds=["with", "with", "deco", "deco()", "old", "all"], min_ops=10, max_ops=36)


def cases(tier):
    return some((17, histories(P)), (12, scripts(P, ["a", "a", "b"], [[None], [None], [2], [None, 0]])), (1, wide(P)))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["tx_end_with_tags"] > 0 and lab["miss_invalidated"] > 0)
