"""C28: a backend error surfaces and corrupts nothing."""
from hypothesis import strategies as st

from gen import Profile, Ops, config, explicit, finalize, histories, dressed, probes, some, ISOS
import model

RULE = ("a history in which single backend calls raise (before or after taking effect) in the middle of stores, reads, invalidations "
        "and transaction ends, also within transactions, repeated by the caller and followed by another thread's store; non-trivial: at least one injected error reached the caller, and an entry was judged dead or live "
        "after it")
EXAMPLES = {"quick": 900, "thorough": 25000}
ASSUMPTIONS = ["errors are raised by single backend calls; delayed invalidations (background timers) run without errors"]

P = Profile(
    sessions=2, keys=3, tags=["a", "b", "c"], versions=[[None], [None], [2]], isos=ISOS, delays=[0, 0, 0, 2],
    wirings=["django", "django", "plain", "proxy"],
    weights={"set": 6, "get": 5, "many": 2, "gosc": 3, "inv": 4, "open": 2, "close": 2, "scope": 2, "begin": 2, "finish": 2, "flush": 1,
             "end": 1, "fault": 6, "adv": 1},
    dts=[0, 1, 6], timeouts=[None], raises=[None, None, None, "yes"], states=True, max_tags=2, inner_extra=["open", "close"],
    modes=["u", "t", "t"], min_ops=10, max_ops=36, retry=True)


OPS = Ops(P)


@st.composite
def outages(draw):
    """Within transactions an operation fails and is repeated, then another thread offers something with the same tags."""
    cfg = draw(config(P))
    if draw(st.integers(0, 3)):
        cfg["iso"] = draw(st.sampled_from(["REPEATABLE READ", "SERIALIZABLE"]))
    vs = explicit(draw, cfg, draw(st.sampled_from(P.versions)))
    ops = []

    def some_op(kinds, s):
        op = OPS.make(draw, draw(st.sampled_from(kinds)), 1)
        op["s"] = s
        return op
    for _ in range(draw(st.integers(1, 3))):
        s = draw(st.integers(0, 1))
        for o in draw(st.lists(st.sampled_from(["set", "set", "inv"]), max_size=2)):
            ops.append(some_op([o], draw(st.integers(0, 1))))
        depth = draw(st.sampled_from([0, 1, 1, 1, 2]))
        ops += [{"o": "begin", "s": s, "old": 0} for _ in range(depth)]
        for o in draw(st.lists(st.sampled_from(["set", "get", "inv", "open"]), max_size=2)):
            ops.append(some_op([o], s))
        ops.append({"o": "fault", "n": draw(st.integers(0, 3)), "mode": draw(st.sampled_from(["before", "after"])), "exit": draw(st.sampled_from([0, 0, 0, 1]))})
        op = some_op(["inv", "inv", "inv", "set", "gosc", "many", "get"], s)
        ops.append(op)
        ops.append({"o": "nofault"})
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
            ops.append(dict(op))
            if op["o"] == "inv" and draw(st.integers(0, 3)) == 0:
                op = dict(op, tags=op["tags"][:1])
        tags = op.get("tags") or draw(OPS.tagset)
        scope = draw(st.integers(0, 2)) == 0
        if scope:
            ops.append({"o": "begin", "s": 1 - s, "old": 0})
        st_ = some_op(["set"], 1 - s)
        st_.update(tags=tags[draw(st.integers(0, len(tags) - 1)):], vi=op["vi"])
        ops.append(st_)
        ops.append({"o": "get", "s": 1 - s, "k": st_["k"], "vi": op["vi"], "mode": "u", "cf": 0})
        if scope:
            ops.append({"o": "finish", "s": 1 - s, "old": 0})
        if draw(st.integers(0, 2)) == 0:
            ops.append(some_op(["set"], s))
        if depth:
            if draw(st.integers(0, 2)) == 0:
                ops += [{"o": "fault", "n": draw(st.integers(0, 3)), "mode": draw(st.sampled_from(["before", "after"])), "exit": draw(st.sampled_from([0, 0, 0, 1]))},
                        {"o": "finish", "s": s, "old": 0}, {"o": "nofault"}]
            ops += [{"o": "flush", "s": s, "old": 0}, {"o": "state", "s": s}]
        for i in range(P.keys):
            ops.append({"o": "get", "s": i % 2, "k": "u%d" % i, "vi": op["vi"], "mode": "u", "cf": 0})
        if draw(st.integers(0, 1)):
            ops.append({"o": "adv", "dt": draw(st.sampled_from(P.dts))})
    return {"engine": "hist", "cfg": cfg, "ops": dressed(draw, finalize(ops, vs) + probes(P, vs, cfg))}


@st.composite
def ends(draw):
    """The end of a request fails within computations; the next one of the same thread computes the same."""
    cfg = draw(config(P))
    vs = explicit(draw, cfg, draw(st.sampled_from(P.versions)))
    ops = []

    def op(kind, **kw):
        ops.append(dict(OPS.make(draw, kind, 1), s=0, **kw))
    keys = draw(st.permutations(["u0", "u1", "u2"]))
    tags = draw(st.permutations(["a", "b", "c"]))
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        ops.append({"o": "begin", "s": 0, "old": 0})
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            op("inv")
    vi = draw(OPS.vi)
    for k in keys[:draw(st.sampled_from([1, 1, 2]))]:
        op("open", k=k, mode="t", vi=vi)
    op("set", k=keys[2], tags=tags[:1], vi=vi)
    ops.append({"o": "fault", "n": draw(st.sampled_from([0, 0, 0, 1, 2])), "mode": draw(st.sampled_from(["before", "after"])), "exit": draw(st.sampled_from([0, 0, 0, 1]))})
    op("end")
    ops.append({"o": "nofault"})
    if draw(st.integers(0, 3)) == 0:
        op("end")
    for k in draw(st.sampled_from([keys[:1], keys[:1], keys[1:2], keys[:2]])):
        op("open", k=k, mode="t", vi=vi)
    if draw(st.booleans()):
        op("set", k=keys[2], tags=tags[1:2], vi=vi)
    for _ in range(2):
        op("close", how="set", tags=draw(st.sampled_from([[], tags[2:]])), tf="list", to=None, cf=0)
    op("inv", tags=tags[:1], vi=vi)
    for k in keys:
        ops.append({"o": "get", "s": draw(st.integers(0, 1)), "k": k, "vi": vi, "mode": "u", "cf": 0})
    return {"engine": "hist", "cfg": cfg, "ops": dressed(draw, finalize(ops, vs) + probes(P, vs, cfg))}


def cases(tier):
    return some((6, histories(P)), (2, outages()), (1, ends())).map(disarm)


def disarm(case):
    """No error is pending when the clock runs the background timers."""
    ops = []
    for op in case["ops"]:
        if op["o"] == "adv":
            ops.append({"o": "nofault"})
        ops.append(op)
    return dict(case, ops=ops)


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["error_surfaced"] > 0 and lab["hit"] + lab["miss_invalidated"] > 0)
