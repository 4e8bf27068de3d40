"""C05: abandoned, failed and opted-out computations leave nothing behind."""
from gen import Profile, histories, some, computations, TAGS
import model

RULE = ("a history of nested computations (missed tracked reads closed by a store, an abort, an exception out of a compute-if-missing "
        "callback, or the end of the request), untracked reads and ignore_descendants switches; non-trivial: something was abandoned "
        "(abort, raising callback, end with open computations) or read untracked, and later an entry was missed because of an "
        "invalidation or hit after one")
EXAMPLES = {"quick": 800, "thorough": 20000}

P = Profile(
    sessions=2, keys=5, tags=TAGS, versions=[[None], [None], [1], [2, 3]],
    weights={"set": 4, "get": 5, "many": 2, "gosc": 4, "inv": 3, "open": 5, "close": 6, "end": 1, "ign": 1, "adv": 1},
    dts=[0, 1], timeouts=[None], modes=["u", "t", "t"], open_modes=["t", "t", "t", "u"],
    raises=[None, "yes"], inner_extra=["open", "close"], body_len=5, min_ops=10, max_ops=36)

# few keys, abandoned again and again
Q = Profile(
    sessions=2, keys=3, tags=["a", "b", "c"], versions=[[None], [None], [2]], wirings=["proxy", "proxy", "django", "plain"],
    weights={"set": 3, "get": 4, "inv": 3, "open": 5, "close": 4, "end": 3, "gosc": 1, "begin": 1, "finish": 1},
    timeouts=[None], modes=["u", "t", "t"], open_modes=["t"], max_tags=1, raises=[None, "yes"], min_ops=8, max_ops=26)

R = Profile(sessions=2, keys=7, tags=["a", "b", "c"], wirings=["proxy", "proxy", "django", "plain"])


def cases(tier):
    return some((4, histories(P)), (2, histories(Q)), (3, computations(R, abandon=2, switches=True)))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: (
        lab["abort"] + lab["gosc_raise"] + lab["end_with_open_computation"] + lab["untracked"] > 0
        and lab["inv"] > 0 and lab["hit"] + lab["miss_invalidated"] > 0))
