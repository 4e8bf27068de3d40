"""C29: the deprecated package names are the same library."""
from hypothesis import strategies as st

import model
import webmodel
from gen import Profile, histories, some, ISOS
from props import c20, c22

RULE = ("histories whose threads and single operations use the current or the deprecated package names (module collection, cache objects "
        "built from parts, dependencies, decorators, middleware), and templates and pages through the deprecated template library, "
        "decorators and middleware while data change through the current names; non-trivial: an invalidated entry was missed and another "
        "hit, or fragments or pages were served and refreshed")
EXAMPLES = {"quick": 500, "thorough": 12000}
CATS = c20.CATS + c22.CATS

P = Profile(
    sessions=2, keys=4, tags=["a", "b", "c"], versions=[[None], [None], [None, 2]], isos=ISOS, delays=[0, 0, 1],
    wirings=["global", "global", "plain"],
    weights={"set": 5, "get": 4, "many": 2, "gosc": 2, "inv": 4, "adv": 1, "scope": 3, "begin": 1, "finish": 1, "open": 1, "close": 1, "end": 1,
             "request": 1},
    kinds=["with", "deco", "old", "old()", "all", "gold", "gall", "module"], raises=[None, None, "yes"], min_ops=6, max_ops=26, body_len=2)


def mark(draw, ops):
    for op in ops:
        if op["o"] in ("set", "get", "many", "gosc", "inv", "scope", "begin", "finish", "open", "close", "request"):
            op["nm"] = draw(st.integers(0, 1))
        mark(draw, op.get("body", ()))


def suit(ops):
    """Without what works on the module's collection only."""
    out = [op for op in ops if op["o"] != "request"]
    for op in out:
        if op["o"] == "scope" and op["kind"] in ("gold", "gall"):
            op["kind"] = {"gold": "old", "gall": "all"}[op["kind"]]
        if "body" in op:
            op["body"] = suit(op["body"])
    return out


@st.composite
def hists(draw):
    case = draw(histories(P))
    cfg = case["cfg"]
    cfg["names"] = draw(st.sampled_from(["mix", "mix", "old"]))
    if cfg["wiring"] == "global":       # with the default settings
        cfg.update(iso="READ COMMITTED", delay=0)
    else:
        case["ops"] = suit(case["ops"])
    mark(draw, case["ops"])
    return case


@st.composite
def webs(draw, programs):
    case = draw(programs)
    case["cfg"]["names"] = draw(st.sampled_from(["old", "mix"]))
    return case


def cases(tier):
    return some((5, hists()), (2, webs(c20.programs())), (2, webs(c22.programs())))


def judge(case, out):
    if case["engine"] == "hist":
        return model.judge(case, out, lambda lab, c, o: lab["miss_invalidated"] > 0 and lab["hit"] > 0)
    msg, m = webmodel.judge(case, out, CATS)
    s = m.stats
    return msg, {"labels": sorted(set(m.labels) | {k for k, v in s.items() if v}),
                 "nontrivial": bool((s["served"] and s["refreshed"]) or (s["pserved"] and s["prefreshed"]))}
