"""C20: cached template fragments are always equal to a fresh rendering."""
from hypothesis import strategies as st

import webgen
import webmodel

RULE = ("templates with nested fragments (in with, for, if, include, block and extends; tags given as arguments, keyword lists or by the "
        "add-tags tag; cached values of the application inside) rendered repeatedly while data changes, tags are invalidated, time passes, "
        "transactions begin and end and renderings fail; non-trivial: at least two fragments served from the cache and one refreshed")
EXAMPLES = {"quick": 700, "thorough": 20000}
ASSUMPTIONS = ["names of fragments determine their content and contain no spaces", "one thread (interleavings are the subject of C09-C12)",
               "while a transaction holds a tag it is left open whether fragments with the tag are stored"]
CATS = ("frag-stale", "frag-again", "frag-kept", "fn-again", "fn-kept", "req-tags", "error")


@st.composite
def programs(draw):
    nvars = draw(st.integers(1, 4))
    nf = draw(st.sampled_from([0, 1, 2]))
    phased = draw(st.sampled_from([0, 0, 1]))        # a second pass over the cached text, it needs a request
    g = webgen.Gen(draw, nvars, nf, boom=draw(st.sampled_from([0, 0, 1])), phased=phased)
    templates = {}
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        g.budget = 25
        templates["m%d" % i] = g.template(2 + g.d(2))[0]
    templates.update(g.subs)
    mains = sorted(n for n in templates if n.startswith("m"))
    ops, tx = [], False
    last = mains[0]
    for _ in range(draw(st.integers(5, 18))):
        o = draw(st.sampled_from(["render"] * 6 + ["set"] * 4 + ["inv", "tick", "tx", "close"]))
        if o == "render":
            last = draw(st.sampled_from(mains))
            ops.append({"o": "render", "t": last, "req": 1 if phased else draw(st.integers(0, 1))})
        elif o == "set":
            ops.append({"o": "set", "w": [draw(st.integers(0, nvars - 1)), draw(st.integers(0, 3)), draw(st.sampled_from([0, 0, 1, 2]))]})
        elif o == "inv":
            ops.append({"o": "inv", "tags": draw(st.lists(st.sampled_from(webgen.OTHER), min_size=1, max_size=2, unique=True))})
        elif o == "tick":
            ops.append({"o": "tick", "dt": draw(st.sampled_from([1, 3, 7, 30, 100]))})
        elif o == "close":
            ops.append({"o": "close"})
            tx = False
        else:
            ops.append({"o": "finish" if tx else "begin"})
            tx = not tx
    return {"engine": "webrun", "cfg": {"site": "decorator", "dver": draw(st.sampled_from([1, 1, 1, 1, 2, 0])), "iso": draw(st.sampled_from([None, None, "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE"]))},
            "data": [0] * nvars, "templates": templates, "fns": draw(webgen.fns(nvars, nf)), "ops": ops}


def cases(tier):
    return programs()


def judge(case, out):
    msg, m = webmodel.judge(case, out, CATS)
    s = m.stats
    labels = set(m.labels) | {k for k, v in s.items() if v}
    return msg, {"labels": sorted(labels), "nontrivial": s["served"] >= 2 and s["refreshed"] >= 1}


def frag(i, tags, *body):
    return ["frag", {"id": i, "tags": tags, "form": 0, "kw": None}, list(body)]


FIXED = [("a failed fragment leaves nothing behind", {
    "engine": "webrun", "cfg": {"site": "decorator"}, "data": [0], "fns": [],
    "templates": {"m0": {"body": [frag("f1", ["T0"], ["boom", 0, 3])]}, "m1": {"body": [frag("f2", ["X1"], ["text", "a"])]}},
    "ops": [{"o": "set", "w": [0, 3]}, {"o": "render", "t": "m0"}, {"o": "render", "t": "m1"}, {"o": "set", "w": [0, 0]},
            {"o": "render", "t": "m0"}, {"o": "inv", "tags": ["X1"]}, {"o": "render", "t": "m0"}]})]
