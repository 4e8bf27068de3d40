"""C03: a live entry is served exactly as stored."""
from hypothesis import strategies as st

from codec import enc
from gen import Profile, histories, wide, some, TAGS
import model

RULE = ("a history of stores of arbitrary picklable values (falsy values, None in containers, dictionaries resembling internal records, "
        "nested containers, big numbers, bytes) with timeouts, overwrites, unrelated invalidations and other entries; non-trivial: at "
        "least two reads had to hit a live entry after an invalidation or another store")
EXAMPLES = {"quick": 700, "thorough": 20000}

scalars = st.one_of(
    st.sampled_from([0, 1, True, False, "", "a", 0.0, 1.0, -1, b"", b"a", None, 2 ** 70, "__value", "None"]),
    st.integers(-3, 3), st.text(max_size=3), st.binary(max_size=3),
    st.floats(allow_nan=False, allow_infinity=False, width=32))
hashable = st.one_of(st.sampled_from(["__value", "__dependency", "tags", "value", 0, None]), st.integers(-2, 2), st.text(max_size=2))
values = st.recursive(
    scalars,
    lambda c: st.one_of(
        st.lists(c, max_size=3), st.lists(c, max_size=3).map(tuple),
        st.sets(hashable, max_size=3), st.frozensets(hashable, max_size=3),
        st.dictionaries(hashable, c, max_size=3),
        c.map(lambda v: {"__value": v}), c.map(lambda v: {"__dependency": v}), c.map(lambda v: {"__value": v, "__dependency": v})),
    max_leaves=5)
# None itself is stored too: reads may report it as a miss only where the API cannot tell (never here: default= is given)
VALUES = values.map(enc)

P = Profile(
    sessions=2, keys=4, tags=TAGS, versions=[[None], [None, 2], [1, 3]],
    weights={"set": 7, "get": 7, "many": 2, "gosc": 2, "inv": 2, "adv": 1, "open": 1, "close": 1},
    dts=[0, 0.5, 1, 4, 5, 59, 60, 61, 3600, 80000], timeouts=[None, None, None, 1, 60, 3600, 100000],
    values=VALUES, raises=[None], min_ops=8, max_ops=24)


def cases(tier):
    return some((19, histories(P)), (1, wide(P, [17, 100, 600, 600], ["half", "half", "prefix", "most"])))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["hit"] >= 2 and (lab["inv"] > 0 or lab["store_store"] > 1))
