"""C30: processes which share a backend guarantee what threads do; a killed one leaves nothing wrong behind."""
from hypothesis import strategies as st

import model
import webmodel
from gen import Profile, histories, scripts, some, ISOS
from props import c18, c20, c22

RULE = ("histories of 2-3 forked processes (of a preloading and of a fresh parent, with different hash seeds, on one or several hosts) with "
        "1-2 threads each which share one backend, and are killed between operations or at a call of the backend; templates and pages served "
        "by turns; non-trivial: a dead entry was missed and another hit, or the model demanded a store to be refused and one to be accepted, "
        "or fragments or pages were served and refreshed")
EXAMPLES = {"quick": 250, "thorough": 6000}
CATS = c20.CATS + c22.CATS

COMMON = dict(sessions=4, tags=["a", "b", "c"], versions=[[None], [None], [2], [None, 2]], timeouts=[None, None, 5], max_tags=2)
P1 = Profile(
    keys=4, isos=ISOS, delays=[0, 0, 1, 2], wirings=["django", "proxy", "plain", "global"],
    weights={"set": 5, "get": 4, "many": 2, "gosc": 2, "inv": 4, "adv": 2, "scope": 3, "begin": 1, "finish": 1, "flush": 1, "open": 2, "close": 2,
             "end": 1, "evict": 1, "nat": 1, "request": 1},
    raises=[None, None, "yes"], min_ops=8, max_ops=26, body_len=2, **COMMON)
P2 = Profile(
    keys=2, isos=["REPEATABLE READ", "SERIALIZABLE"], delays=[0, 0, 1, 3], wirings=["django", "proxy", "plain"],
    weights={"set": 8, "get": 1, "gosc": 1, "inv": 4, "adv": 3, "scope": 1, "begin": 4, "finish": 4, "flush": 1, "end": 1, "open": 1, "close": 1},
    dts=[0.25, 0.5, 1, 1, 2, 3, 4, 4.75, 5.25, 6], kinds=["with", "deco"], readback=True, min_ops=8, max_ops=26, **COMMON)


def processes(draw, case):
    cfg = case["cfg"]
    cfg["procs"] = draw(st.sampled_from([2, 2, 3]))
    cfg["zy"] = draw(st.sampled_from([[0], [0], [0, 1], [1, 0], [1], [0, 0, 1]]))
    if draw(st.integers(0, 2)) == 0:
        cfg["hosts"] = 1
    case["engine"] = "procs"
    return case


def simple(op):
    return op["o"] in ("set", "get", "many", "inv", "finish", "flush", "begin", "open") or (op["o"] == "close" and "i" not in op)


def suit(ops):
    out = []
    for op in ops:
        if op["o"] == "request":
            continue
        if op["o"] == "scope" and op["kind"] in ("gold", "gall"):
            op["kind"] = {"gold": "old", "gall": "all"}[op["kind"]]
        if "body" in op:
            op["body"] = suit(op["body"])
        out.append(op)
    return out


def no_ref(case):
    case["cfg"].pop("ref", None)
    case["cfg"].pop("dver", None)
    return case


@st.composite
def hists(draw, source):
    case = processes(draw, no_ref(draw(source)))
    case["sub"] = "hist"
    if case["cfg"]["wiring"] == "global":
        case["cfg"].update(iso="READ COMMITTED", delay=0)
    else:
        case["ops"] = suit(case["ops"])
    ops = []
    mortal = draw(st.integers(0, 2)) > 0
    for op in case["ops"]:
        if mortal and "s" in op:
            x = draw(st.integers(0, 15))
            if x == 0:
                ops.append({"o": "kill", "p": draw(st.integers(0, 2))})
            elif x in (1, 2) and simple(op):
                op = dict(op, die=[draw(st.integers(0, 4)), draw(st.integers(0, 1))])
        ops.append(op)
    case["ops"] = ops
    return case


@st.composite
def webs(draw, source):
    case = processes(draw, draw(source))
    case["sub"] = "web"
    case["cfg"].pop("dver", None)
    if case["cfg"].get("iso") in ("REPEATABLE READ", "SERIALIZABLE"):       # transactions of other threads: histories only
        case["cfg"]["iso"] = "READ COMMITTED"
    case["ops"] = [op for op in case["ops"] if op["o"] not in ("begin", "finish")]
    for op in case["ops"]:
        if op["o"] != "tick":
            op["p"] = draw(st.integers(0, 2))
    return case


@st.composite
def islands(draw):
    case = draw(c18.templates().filter(lambda c: not c18.braces(c["pieces"])))
    case["cfg"] = {}
    case = processes(draw, case)
    case["sub"] = "islands"
    for op in case["ops"]:
        op["p"] = draw(st.integers(0, 2))
    return case


def cases(tier):
    return some((4, hists(histories(P1))), (3, hists(histories(P2))), (3, hists(scripts(P2, ["a", "a", "b"], [[None], [None], [2], [None, 0]]))),
                (2, webs(c20.programs())), (2, webs(c22.programs())),
                (1, islands()))


def judge(case, out):
    if case["sub"] == "hist":
        return model.judge(case, out, lambda lab, c, o: (lab["miss_invalidated"] > 0 and lab["hit"] > 0) or
                           (lab["store_refuse"] > 0 and lab["store_store"] > 0))
    if case["sub"] == "islands":
        return c18.judge(case, out)
    msg, m = webmodel.judge(case, out, CATS)
    s = m.stats
    return msg, {"labels": sorted(set(m.labels) | {k for k, v in s.items() if v}),
                 "nontrivial": bool((s["served"] and s["refreshed"]) or (s["pserved"] and s["prefreshed"]))}
