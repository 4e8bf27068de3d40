"""C15: threads never share computation or transaction state."""
from hypothesis import strategies as st

from gen import Profile, histories, some
import model

RULE = ("a history where 3 threads interleave open computations and transactions on two aliases, check the identity of their cache "
        "objects, and try each other's managers; non-trivial: at least two threads had an open computation or transaction at the same "
        "time, or a foreign manager was tried")
EXAMPLES = {"quick": 800, "thorough": 20000}

COMMON = dict(
    sessions=3, keys=4, tags=["a", "b", "c"], versions=[[None], [2]], dts=[0, 1, 6], timeouts=[None], raises=[None], states=True,
    modes=["u", "t", "t"], min_ops=10, max_ops=36, inner_extra=["open", "close"])
P1 = Profile(
    isos=["READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE"], wirings=["django", "django", "proxy"],
    weights={"set": 5, "get": 3, "many": 1, "gosc": 1, "inv": 3, "open": 6, "close": 5, "begin": 3, "finish": 3, "end": 1,
             "foreign": 2, "same": 2, "ign": 1, "adv": 1},
    second=st.fixed_dictionaries({"ISOLATION_LEVEL": st.sampled_from(["READ COMMITTED", "REPEATABLE READ"]),
                                  "DELAY": st.sampled_from([0, 0, 2])}), **COMMON)
P2 = Profile(
    isos=["READ COMMITTED", "REPEATABLE READ", "READ UNCOMMITTED"], wirings=["django", "plain"],
    weights={"set": 5, "get": 3, "many": 1, "gosc": 1, "inv": 3, "open": 6, "close": 5, "begin": 3, "finish": 3, "end": 1,
             "foreign": 2, "same": 2, "adv": 1}, **COMMON)
# short histories of threads which come and go
P3 = Profile(
    isos=["READ COMMITTED"], wirings=["proxy", "proxy", "django"],
    weights={"set": 2, "get": 1, "open": 3, "close": 2, "begin": 2, "finish": 1, "end": 4, "same": 5, "inv": 1},
    **dict(COMMON, sessions=4, min_ops=4, max_ops=16, states=False))


def identified(case):
    """Which object the thread works with is told after every operation."""
    case["cfg"]["ids"] = 1
    return case


def cases(tier):
    return some((2, histories(P1)), (2, histories(P2)), (2, histories(P3).map(identified)))


def overlap(case):
    opened = set()
    for op in case["ops"]:
        s = op.get("s")
        if op["o"] in ("open", "begin"):
            opened.add(s)
            if len(opened) > 1:
                return True
        elif op["o"] in ("close", "finish", "flush", "end"):
            opened.discard(s)
    return False


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["foreign"] > 0 or overlap(c))
