"""C22: a cached page is never served after any of its tags was invalidated, and is served until then."""
from hypothesis import strategies as st

import webgen
import webmodel

RULE = ("views cached by the decorator, the two-part or the single middleware (two aliases, prefixes, timeouts, Vary, lazy responses) whose "
        "pages contain data, fragments and cached values; requests by several methods, header values, hosts and URLs, data changes inside "
        "and outside of requests and transactions; non-trivial: a page was served from the cache and a page was rebuilt after an invalidation")
EXAMPLES = {"quick": 700, "thorough": 20000}
ASSUMPTIONS = ["the Vary header of a view is constant", "values of different headers are different and not empty (the framework joins them without names)",
               "while a transaction holds a tag it is left open whether pages with the tag are stored",
               "fragments in templates use the default alias, pages with fragments too"]
CATS = ("page-stale", "page-again", "page-expired", "error")
VARY = [None, None, "Accept", "Accept, X-Kind", "x-kind,accept", "Cookie , Accept", "ACCEPT,Accept", "Accept-Language, Accept", "accept-language"]
HDR = {"Accept": ["ac1;", "ac2;"], "X-Kind": ["kk1;", "kk2;"], "Cookie": ["sid=1", "sid=2"], "Accept-Language": ["al1;", "al2;"]}


@st.composite
def headers(draw):
    return {h: draw(st.sampled_from(v)) for h, v in sorted(HDR.items()) if draw(st.integers(0, 2)) == 0}


@st.composite
def programs(draw):
    nvars = draw(st.integers(1, 3))
    nf = draw(st.sampled_from([0, 1, 2]))
    site = draw(st.sampled_from(["decorator", "decorator", "split", "single"]))
    second = draw(st.sampled_from([0, 0, 0, 1]))
    g = webgen.Gen(draw, nvars, nf)
    templates, views = {}, []
    plain = site != "decorator" and draw(st.booleans())
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        alias = None
        if second:                      # no fragments: they live in the default alias
            body, shown = [], set()
            for _ in range(draw(st.integers(1, 3))):
                k = draw(st.sampled_from(["show", "fn", "text"] if nf else ["show", "text"]))
                v = draw(st.integers(0, nvars - 1))
                body.append({"show": ["show", v], "fn": ["fn", v % max(nf, 1)], "text": ["text", "a"]}[k])
                if k == "show":
                    shown.add(v)
            t = {"body": body}
            alias = "second"
        else:
            g.budget = 20
            t, shown = g.template(1 + g.d(3))
        templates["m%d" % i] = t
        tags = ["T%d" % j for j in sorted(shown)] + (["X%d" % draw(st.integers(0, 4))] if draw(st.integers(0, 2)) == 0 else [])
        views.append({"body": "m%d" % i, "lazy": draw(st.integers(0, 1)), "tags": list(tags) or draw(st.sampled_from([None, []])),
                      "tagsform": draw(st.sampled_from(["tuple", "list", "set"])), "alias": alias, "prefix": "p%d" % i,
                      "timeout": draw(st.sampled_from([600, 600, 60, None])), "style": draw(st.integers(0, 2)),
                      "vary": draw(st.sampled_from(VARY)), "echo": [], "behave": {"cc": draw(st.sampled_from([None, None, None, "max-age=30", "max-age=650"]))}})
        if draw(st.integers(0, 2)) == 0 or plain:       # tags given by the view through the request, as template tags do
            mine = tags if plain else tags[:draw(st.integers(1, 2))]
            views[-1]["addtags"] = mine
            views[-1]["tags"] = [t for t in tags if t not in mine] or draw(st.sampled_from([None, []]))
    templates.update(g.subs)
    ops, tx = [], False
    for _ in range(draw(st.integers(6, 18))):
        o = draw(st.sampled_from(["req"] * 7 + ["set", "set", "set", "inv", "tick", "render", "tx", "close"]))
        i = draw(st.integers(0, len(views) - 1))
        if o == "render" and not second:
            ops.append({"o": "render", "t": "m%d" % i, "req": draw(st.integers(0, 1))})
        elif o in ("req", "render") and draw(st.integers(0, 2)) and any(x["o"] == "req" for x in ops):
            op = dict(draw(st.sampled_from([x for x in ops if x["o"] == "req"][-3:])))      # again
            w = draw(st.integers(0, 5))
            if w == 0:
                op["hdr"] = draw(headers())
            elif w == 1:
                op.update(method=draw(st.sampled_from(["GET", "HEAD"])))
                op.pop("write", None)
            ops.append(op)
            if not op.get("noend"):
                tx = False
        elif o in ("req", "render"):
            op = {"o": "req", "view": i, "url": draw(st.sampled_from(["", "", "?a=1", "u/"])), "hdr": draw(headers()),
                  "method": draw(st.sampled_from(["GET", "GET", "GET", "HEAD", "POST"]))}
            if site != "decorator":
                op["url"] = "%d/" % i + op["url"]
            if draw(st.integers(0, 9)) == 0:
                op["host"] = "other.example.com"
            if op["method"] == "POST":
                op["write"] = [draw(st.integers(0, nvars - 1)), draw(st.integers(0, 3)), draw(st.integers(0, 2))]
            if draw(st.integers(0, 9)) == 0:
                op["noend"] = 1
            ops.append(op)
            if not op.get("noend"):
                tx = False
        elif o == "set":
            ops.append({"o": "set", "w": [draw(st.integers(0, nvars - 1)), draw(st.integers(0, 3)), draw(st.sampled_from([0, 0, 1, 2]))]})
        elif o == "inv":
            ops.append({"o": "inv", "tags": [draw(st.sampled_from(webgen.OTHER))]})
        elif o == "tick":
            ops.append({"o": "tick", "dt": draw(st.sampled_from([1, 7, 31, 100, 350, 610]))})
        elif o == "close":
            ops.append({"o": "close"})
            tx = False
        else:
            ops.append({"o": "finish" if tx else "begin"})
            tx = not tx
    cfg = {"site": site, "plainmw": int(plain), "second": second, "etags": draw(st.sampled_from([0, 0, 1])),
           "iso": draw(st.sampled_from([None, None, "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE"])),
           "txmw": draw(st.sampled_from([0, 0, 1])), "seconds": draw(st.sampled_from([600, 60])), "prefix": draw(st.sampled_from(["", "px"])), "dver": draw(st.sampled_from([1, 1, 1, 1, 2, 0])),
           "i18n": draw(st.sampled_from([0, 0, 0, 1])), "l10n": draw(st.sampled_from([0, 0, 1]))}
    if site != "decorator" and second:
        cfg["alias"] = "second"
    return {"engine": "webrun", "cfg": cfg, "data": [0] * nvars, "templates": templates,
            "fns": draw(webgen.fns(nvars, nf, ("second",) if second else ("default",))), "views": views, "ops": ops}


def cases(tier):
    from props import c23       # pages of all kinds, without data
    return st.integers(0, 4).flatmap(lambda i: programs() if i else c23.programs())


def judge(case, out):
    msg, m = webmodel.judge(case, out, CATS)
    s = m.stats
    labels = set(m.labels) | {k for k, v in s.items() if v}
    return msg, {"labels": sorted(labels), "nontrivial": bool(s["pserved"] and s["prefreshed"])}
