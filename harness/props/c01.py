"""C01: an invalidated entry is never served again."""
from gen import Profile, histories, wide, some, ODD_TAGS, LONG_DT, ISOS
import model

RULE = ("a history of set/get/get_many/get_or_set_callback/invalidate/clock steps over 2-5 keys, 1-3 tags per entry, versions and "
        "reading threads; non-trivial: at least one read of an entry killed by an invalidation was judged (and missed), "
        "distinct as JSON")
EXAMPLES = {"quick": 700, "thorough": 20000}

BASE = Profile(
    sessions=3, keys=3, tags=ODD_TAGS[1:4], versions=[[None], [None], [1], [None, 2], [2, 3]],
    weights={"set": 6, "get": 6, "many": 2, "gosc": 3, "inv": 5, "adv": 1, "open": 2, "close": 2},
    raises=[None], dts=LONG_DT, min_ops=8, max_ops=30)


def cases(tier):
    return some((24, histories(BASE)), (1, wide(BASE)))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["miss_invalidated"] > 0)
