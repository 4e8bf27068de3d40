"""C31: threads which render the same templates and serve the same views at once do not disturb each other."""
from hypothesis import strategies as st

import codec
import islands
import webgen
import webmodel
from gen import some
from props import c18, c20, c21, c22

RULE = ("the templates, sites and islands of C18, C20 and C22 used by 2-3 threads in turn, and by one thread in the middle of what another one "
        "does (at generated points inside of templates, views and callbacks, up to three deep); non-trivial: a thread did something in the "
        "middle of another's work, and fragments, pages or islands were served")
EXAMPLES = {"quick": 600, "thorough": 15000}
CATS = c20.CATS + c22.CATS + ("page-prevent", "page-prevented", "page-wrong", "page-differs", "page-headers", "page-ineligible")
ASSUMPTIONS = ["threads are switched at template nodes, in views, callbacks and islands, not inside of the library"]


def switched(draw, nodes):
    out = []
    for n in nodes:
        if draw(st.integers(0, 3)) == 0:
            out.append(["switch"])
        out.append([n[0]] + [switched(draw, x) if isinstance(x, list) and x and isinstance(x[0], list) else x for x in n[1:]])
    if draw(st.integers(0, 5)) == 0:
        out.append(["switch"])
    return out


@st.composite
def webs(draw, source):
    case = draw(source)
    cfg = case["cfg"]
    cfg["threads"] = draw(st.sampled_from([2, 3, 3]))
    cfg["compile"] = int(draw(st.integers(0, 4)) == 0)
    if cfg.get("iso") in ("REPEATABLE READ", "SERIALIZABLE"):       # transactions of other threads: histories only
        cfg["iso"] = "READ COMMITTED"
    for name in sorted(case["templates"]):
        case["templates"][name]["body"] = switched(draw, case["templates"][name]["body"])
    for op in case["ops"]:
        op["s"] = draw(st.integers(0, 2))
        op.pop("noend", None)
    pool = [op for op in case["ops"] if op["o"] == "render" or (op["o"] == "req" and not op.get("write"))]
    if pool:
        case["side"] = [dict(draw(st.sampled_from(pool)), s=draw(st.integers(0, 2))) for _ in range(draw(st.integers(0, 8)) + case.pop("more", 0))]
    return case


@st.composite
def crossing(draw):
    """Looped fragments with tags, timeouts and prevention of their own, whose bodies are crossed by renderings of the same template."""
    nvars, nf = draw(st.integers(1, 2)), draw(st.integers(0, 1))
    g = webgen.Gen(draw, nvars, nf, prevent=draw(st.sampled_from([0, 1])))
    g.budget = 10
    frags = [g.frag(1, 1, True, "", True) for _ in range(draw(st.sampled_from([1, 1, 2])))]
    for n in frags:
        n[1]["looped"] = True
        if draw(st.booleans()):
            n[1]["tloop"] = 1
        if draw(st.integers(0, 3)):
            n[2].insert(draw(st.integers(0, len(n[2]))), ["switch"])
    templates = {"m0": {"body": [["for", draw(st.sampled_from([2, 2, 3])), frags]]}}
    templates.update(g.subs)
    ops = []
    for _ in range(draw(st.integers(4, 12))):
        o = draw(st.sampled_from(["render"] * 5 + ["set", "inv", "tick", "tick"]))
        ops.append({"render": {"o": "render", "t": "m0", "req": draw(st.integers(0, 1))},
                    "set": {"o": "set", "w": [draw(st.integers(0, nvars - 1)), draw(st.integers(0, 3)), 0]},
                    "inv": {"o": "inv", "tags": [draw(st.sampled_from(webgen.OTHER))]},
                    "tick": {"o": "tick", "dt": draw(st.sampled_from([1, 7, 31, 100]))}}[o])
    return {"engine": "webrun", "cfg": {"site": "decorator"}, "data": [0] * nvars, "templates": templates, "fns": draw(webgen.fns(nvars, nf)),
            "ops": ops, "more": draw(st.sampled_from([0, 3, 6]))}


@st.composite
def delivered(draw):
    case = draw(c18.directs())
    names = sorted({k for d in case["deliveries"] for k, _ in d["v"]})
    case["threads"] = 3
    case["side"] = [codec.enc({n: draw(c18.CAPT) for n in names}) for _ in range(draw(st.integers(1, 4)))]
    return case


def cases(tier):
    return some((3, webs(c20.programs())), (1, webs(c21.programs())), (2, webs(crossing())), (3, webs(c22.programs())), (1, delivered()))


def judge(case, out):
    if case["engine"] == "islandrun":
        msg, info = c18.judge(case, out)
        return msg or aside(case, out), dict(info, nontrivial=bool(out["side"]))
    msg, m = webmodel.judge(case, out, CATS)
    s = m.stats
    return msg, {"labels": sorted(set(m.labels) | {k for k, v in s.items() if v}),
                 "nontrivial": bool(s.get("aside") and (s["served"] or s["pserved"]))}


def aside(case, out):
    pieces = [raw if p[0] != "island" else [codec.dec(p[1]), p[2]] for p, raw in zip(case["pieces"], out["raw"])]
    for data, res, ticks in out["side"]:
        want_ticks = []
        want = islands.deliver(pieces, codec.dec(data), want_ticks)
        if res != want or ticks != want_ticks:
            return "a delivery in the middle of another one gives %r (%r), expected %r (%r)" % (res, ticks, want, want_ticks)
