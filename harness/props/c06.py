"""C06: cache versions are isolated from each other."""
from gen import Profile, histories
import model

RULE = ("a history over 1-3 cache versions (explicit or default) of the same few keys and tags with stores, reads, invalidations, "
        "transactions and locks; non-trivial: at least two versions in use, an invalidation, and a read that had to hit")
EXAMPLES = {"quick": 800, "thorough": 20000}

P = Profile(
    sessions=2, keys=2, tags=["a", "b"], versions=[[None, 2], [1, 2, 3], [2, 3], [1, 0], [None, 2, 3]],
    isos=["READ UNCOMMITTED", "READ COMMITTED", "REPEATABLE READ", "SERIALIZABLE"], delays=[0, 0, 2],
    weights={"set": 7, "get": 5, "many": 2, "gosc": 2, "inv": 4, "adv": 1, "scope": 2, "begin": 1, "finish": 1, "open": 1, "close": 1, "end": 1},
    dts=[0, 0.5, 1, 2, 3, 6], timeouts=[None, None, 60], raises=[None, None, "yes"], min_ops=8, max_ops=30)


def cases(tier):
    return histories(P)


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: (
        lab["inv"] > 0 and lab["hit"] > 0 and len({op.get("v") for op in c["ops"] if op["o"] in ("set", "inv", "gosc")}) > 1))


def stale(out):
    return bool(out["events"][-1].get("hit"))


# a computation is known by its key alone: reading the same key of another version ends it
KNOWN = {
    "same-key-other-version": ({"engine": "hist", "cfg": {"wiring": "django", "iso": "READ COMMITTED", "delay": 0}, "ops": [
        {"o": "set", "s": 0, "k": "u0", "v": None, "val": "x0", "tags": ["a"], "tf": "list", "to": None, "cf": 0},
        {"o": "set", "s": 0, "k": "u1", "v": 2, "val": "x1", "tags": ["b"], "tf": "list", "to": None, "cf": 0},
        {"o": "open", "s": 0, "k": "u0", "v": 2, "mode": "t"},
        {"o": "get", "s": 0, "k": "u1", "v": 2, "mode": "t", "cf": 0},
        {"o": "get", "s": 0, "k": "u0", "v": None, "mode": "t", "cf": 0, "anyway": 1},
        {"o": "close", "s": 0, "how": "set", "val": "x2", "tags": ["a"], "tf": "list", "to": None, "cf": 0},
        {"o": "inv", "s": 0, "tags": ["b"], "v": 2, "tf": "args", "cf": 0},
        {"o": "get", "s": 0, "k": "u0", "v": 2, "mode": "u", "cf": 0}]}, stale),
}
