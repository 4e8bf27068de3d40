"""C08: compute-if-missing runs the callback only when needed and returns its result."""
from hypothesis import strategies as st

from codec import enc
from gen import Profile, histories, TAGS
import model
from props.c03 import values

RULE = ("a history of compute-if-missing calls (nested, raising ordinary and non-Exception exceptions, with positional and keyword "
        "callback arguments, falsy results) mixed with stores, invalidations, expiry and reads; non-trivial: a compute-if-missing "
        "call was answered from the cache and another one computed")
EXAMPLES = {"quick": 700, "thorough": 20000}

P = Profile(
    sessions=2, keys=3, tags=TAGS, versions=[[None], [None, 2], [3]],
    isos=["READ COMMITTED", "READ COMMITTED", "REPEATABLE READ"],
    weights={"set": 2, "get": 3, "gosc": 9, "inv": 3, "adv": 1, "scope": 1, "open": 1, "close": 1},
    dts=[0, 1, 5, 60, 86400], timeouts=[None, None, 1, 60], raises=[None, None, "yes"],
    values=st.one_of(st.sampled_from([0, "", False, [], {"$": "float", "v": "0.0"}, {"$": "dict", "v": []}, {"$": "tuple", "v": []}, None]), values.map(enc)),
    kinds=["with"], min_ops=6, max_ops=24)


def cases(tier):
    return histories(P)


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["gosc_hit"] > 0 and lab["gosc_miss"] > 0)
