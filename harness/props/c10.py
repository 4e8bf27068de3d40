"""C10: transaction scopes nest and close on every exit path."""
from hypothesis import strategies as st

from gen import Profile, histories, ISOS
import model

RULE = ("a history of nested transaction scopes of every form (begin/finish/flush old and new, with, decorators applied in this or "
        "another thread, deprecated decorators, middleware requests) left by return, exception, flush, end of request or a failing "
        "backend, with the state of the manager compared to the model after each step; non-trivial: a nested scope was entered or a "
        "scope was left by an exception, and the state was seen both open and closed")
EXAMPLES = {"quick": 700, "thorough": 20000}

COMMON = dict(
    sessions=2, keys=2, tags=["a", "b"], versions=[[None], [2]], dts=[0, 1, 6], timeouts=[None], states=True, max_tags=2,
    raises=[None, "yes"], body_len=4, max_depth=3, min_ops=6, max_ops=22)
KINDS = ["with", "deco", "deco()", "old", "old()", "all", "all()", "old(c)", "all(c)", "module"]
P1 = Profile(
    isos=ISOS, delays=[0, 0, 2], wirings=["django", "proxy", "proxy", "plain"], kinds=KINDS,
    weights={"set": 3, "get": 3, "inv": 3, "adv": 1, "scope": 5, "begin": 3, "finish": 3, "flush": 1, "end": 1, "gosc": 1},
    inner_extra=["state", "raise", "begin", "finish", "flush"], **COMMON)
# the module-level objects: what the middleware and the bare deprecated decorators use
P2 = Profile(
    isos=["READ COMMITTED"], delays=[0], wirings=["global"], exits=False, kinds=KINDS + ["gold", "gall", "module"],
    weights={"set": 3, "get": 3, "inv": 3, "adv": 1, "scope": 4, "request": 4, "begin": 2, "finish": 2, "flush": 1, "end": 1, "gosc": 1},
    inner_extra=["state", "raise", "begin", "finish"], **COMMON)
# the middleware and scopes of another alias
P4 = Profile(
    isos=["READ COMMITTED"], delays=[0], wirings=["global"], exits=False, kinds=[k for k in KINDS if k != "module"],
    second=st.just({"ISOLATION_LEVEL": "READ COMMITTED"}),
    weights={"set": 3, "get": 3, "inv": 3, "adv": 1, "scope": 3, "request": 6, "begin": 2, "finish": 2, "flush": 1, "end": 1},
    inner_extra=["state", "raise", "begin", "finish"], **COMMON)
P3 = Profile(
    isos=ISOS, delays=[0, 0, 2], wirings=["django", "plain"], kinds=["with", "deco", "all"],
    weights={"set": 3, "get": 2, "inv": 4, "scope": 4, "begin": 2, "finish": 3, "flush": 1, "end": 1, "fault": 4},
    inner_extra=["state"], **COMMON)
@st.composite
def ends(draw):
    """The end of a request fails for one of two aliases, the next request of the thread begins."""
    cfg = {"iso": "READ COMMITTED", "delay": 0, "wiring": "global", "second": {"ISOLATION_LEVEL": "READ COMMITTED"}}
    ops = []
    alias = st.sampled_from(["default", "second"])

    def op(o, **kw):
        a = draw(alias)
        ops.append(dict({"o": o, "s": 0}, **(dict(kw, a=a) if a != "default" else kw)))

    def states():
        for a in draw(st.permutations([{}, {"a": "second"}])):
            ops.append(dict({"o": "state", "s": 0}, **a))
    for _ in range(draw(st.integers(1, 2))):
        for _ in range(draw(st.integers(2, 6))):
            if draw(st.booleans()):
                op("begin", old=draw(st.integers(0, 1)))
            else:
                op("inv", tags=draw(st.sampled_from([["a"], ["b"], ["a", "b"]])), tf="args", cf=0, v=None)
        if draw(st.integers(0, 3)):
            ops.append({"o": "fault", "n": draw(st.sampled_from([0, 0, 1, 2])), "mode": draw(st.sampled_from(["before", "after"])),
                        "exit": draw(st.sampled_from([0, 0, 1]))})
        ops.append(dict({"o": "end", "s": 0}, **draw(st.sampled_from([{"sig": 1}, {"sig": 1}, {"sig": 1}, {}, {"a": "second"}]))))
        ops.append({"o": "nofault"})
        states()
    op("begin", old=0)
    states()
    op("finish", old=draw(st.integers(0, 1)))
    states()
    return {"engine": "hist", "cfg": cfg, "ops": ops}


def cases(tier):
    return st.one_of(histories(P1), histories(P2), histories(P3), histories(P4), ends())


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: (
        lab["nested_scope"] + lab["scope_raise"] + lab["request_raise"] > 0 and lab["state_open"] > 0 and lab["state_closed"] > 0))
