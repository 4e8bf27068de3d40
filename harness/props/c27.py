"""C27: the tagged cache is a drop-in for the native cache API."""
from hypothesis import strategies as st

from gen import Profile, histories, TFS
import model

RULE = ("a history mixing native calls (set/get with positional or named timeout and version, add, delete, batch write/delete, presence "
        "tests, clear) with tagged ones on the same keys, and every accepted form of giving tags; non-trivial: a native operation and "
        "a tagged store happened and a read had to hit")
EXAMPLES = {"quick": 800, "thorough": 20000}

N = st.integers(0, 10 ** 6)
P = Profile(
    values=st.one_of(N, N.map(lambda n: "x%d" % n)), counters=["incr", "incr", "incr", "decr"],
    sessions=2, keys=3, tags=["a", "b", "c"], versions=[[None], [None], [2], [None, 2]],
    weights={"set": 7, "get": 5, "many": 2, "gosc": 1, "inv": 3, "adv": 2, "nat": 6, "evict": 1},
    dts=[0.5, 1, 4, 5, 59, 60], timeouts=[None, None, 1, 5, 60], evicts=["user", "tag"],
    tfs=["native", "native", "native"] + TFS, raises=[None], min_ops=8, max_ops=30)


def cases(tier):
    return histories(P)


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["native"] > 0 and lab["store_store"] > 0 and lab["hit"] > 0)


def packed(out):
    return out["events"][-1].get("x", [None])[0] == "TypeError"


KNOWN = {
    "incr-after-set": ({"engine": "hist", "cfg": {"wiring": "django", "iso": "READ COMMITTED", "delay": 0}, "sessions": 1, "ops": [
        {"o": "set", "s": 0, "k": "k0", "v": None, "val": 5, "tags": [], "tf": "native", "to": None, "cf": 0},
        {"o": "nat", "m": "incr", "s": 0, "k": "k0", "v": None, "d": 1, "cf": 0}]}, packed),
}
