"""C21: the prevent tag keeps a fragment, its ancestors and the page out of the cache."""
from hypothesis import strategies as st

import webgen
import webmodel

RULE = ("templates with nested fragments and the prevent tag anywhere in their bodies, mostly under conditions which change, rendered "
        "repeatedly on their own, with a request, and as cached pages; non-trivial: storing of a fragment was prevented and another "
        "fragment was served from the cache")
EXAMPLES = {"quick": 700, "thorough": 20000}
ASSUMPTIONS = ["the prevent tag outside of any fragment is left open"]
CATS = ("frag-kept", "frag-again", "frag-stale", "page-prevent", "page-prevented", "page-again", "error")


@st.composite
def programs(draw):
    nvars = draw(st.integers(1, 3))
    g = webgen.Gen(draw, nvars, 0, prevent=draw(st.sampled_from([1, 2])))
    templates, views = {}, []
    site = draw(st.sampled_from(["decorator", "decorator", "split", "single"]))
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        g.budget = 25
        t, shown = g.template(2 + g.d(2))
        templates["m%d" % i] = t
        views.append({"body": "m%d" % i, "lazy": draw(st.integers(0, 1)), "tags": ["T%d" % j for j in sorted(shown)], "prefix": "p%d" % i,
                      "timeout": draw(st.sampled_from([600, 60, None]))})
    templates.update(g.subs)
    ops = []
    for _ in range(draw(st.integers(4, 14))):
        o = draw(st.sampled_from(["render", "render", "req", "req", "req", "set", "set", "inv", "tick"]))
        i = draw(st.integers(0, len(views) - 1))
        if o == "render":
            ops.append({"o": "render", "t": "m%d" % i, "req": draw(st.integers(0, 2)) > 0})
        elif o == "req":
            ops.append({"o": "req", "view": i, "url": "" if site == "decorator" else str(i)})
        elif o == "set":
            ops.append({"o": "set", "w": [draw(st.integers(0, nvars - 1)), draw(st.integers(0, 3))]})
        elif o == "inv":
            ops.append({"o": "inv", "tags": [draw(st.sampled_from(webgen.OTHER))]})
        else:
            ops.append({"o": "tick", "dt": draw(st.sampled_from([1, 7, 100]))})
    return {"engine": "webrun", "cfg": {"site": site, "plainmw": 0}, "data": [0] * nvars, "templates": templates, "fns": [],
            "views": views, "ops": ops}


def cases(tier):
    return programs()


def judge(case, out):
    msg, m = webmodel.judge(case, out, CATS)
    s = m.stats
    labels = set(m.labels) | {k for k, v in s.items() if v}
    return msg, {"labels": sorted(labels), "nontrivial": bool(s["prevented"] and s["served"])}
