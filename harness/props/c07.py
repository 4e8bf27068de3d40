"""C07: a batch read equals the individual reads."""
from gen import Profile, histories, wide, some, TAGS
import model

RULE = ("a history with batch reads of key collections of every iterable kind (with duplicates, missing, invalidated, expired and "
        "composite entries), each compared with individual reads made right after it and with the reference model, also inside of "
        "computations; non-trivial: a batch of at least two keys returned some but not all of them")
EXAMPLES = {"quick": 700, "thorough": 20000}

P = Profile(
    sessions=2, keys=6, tags=TAGS, versions=[[None], [None], [2], [None, 2]],
    weights={"set": 8, "get": 1, "many": 8, "gosc": 2, "inv": 3, "adv": 1, "open": 3, "close": 3, "nat": 1},
    dts=[0, 1, 5, 60], timeouts=[None, None, None, 1, 60], modes=["u", "t", "t"], raises=[None], cmp=True,
    body_len=4, min_ops=8, max_ops=32)


def cases(tier):
    return some((29, histories(P)), (1, wide(P)))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["many_mixed"] > 0)
