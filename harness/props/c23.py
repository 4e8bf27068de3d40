"""C23: only eligible responses are cached, and only for equivalent requests."""
from hypothesis import strategies as st

import webmodel
from props.c22 import VARY, HDR, headers

RULE = ("views with various statuses, streaming, Cache-Control, Vary, sessions, prevention and headers behind the decorator or the "
        "middlewares, requested by all methods with different URLs, hosts, header values, users and languages; non-trivial: a page was "
        "served from the cache, a response was not eligible, and requests differed in URL, headers, host, language or method")
EXAMPLES = {"quick": 1000, "thorough": 30000}
ASSUMPTIONS = ["the Vary header of a view is constant", "values of different headers are different and not empty (the framework joins them without names)"]
CATS = ("page-ineligible", "page-prevented", "page-wrong", "page-differs", "page-headers", "page-expired", "error")
CC = ["max-age=0", "max-age=0, private", "max-age=30", "private", "public, max-age=5", "no-transform", "max-age=x", "s-maxage=0"]


@st.composite
def behaviours(draw, many):
    b = {}
    if draw(st.integers(0, many)) == 0:
        b["status"] = draw(st.sampled_from([200, 201, 204, 206, 301, 302, 304, 400, 404, 410, 500, 503]))
    if draw(st.integers(0, many + 2)) == 0:
        b["stream"] = 1
    if draw(st.integers(0, many + 1)) == 0:
        b["cc"] = draw(st.sampled_from(CC))
    if draw(st.integers(0, many + 1)) == 0:
        b["session"] = 1
    if draw(st.integers(0, many + 3)) == 0:
        b["prevent"] = 1
    if draw(st.integers(0, many + 6)) == 0:
        b["raise"] = 1
    return b


@st.composite
def programs(draw):
    site = draw(st.sampled_from(["decorator", "decorator", "split", "single"]))
    nv = draw(st.integers(1, 3))
    cfg = {"site": site, "plainmw": draw(st.integers(0, 1)), "second": 1, "etags": draw(st.sampled_from([0, 0, 1])),
           "anon": draw(st.sampled_from([None, 0, 1])), "i18n": draw(st.sampled_from([0, 0, 1])), "l10n": draw(st.sampled_from([0, 0, 0, 1])), "seconds": draw(st.sampled_from([600, 600, 60, 60, 60, 0])),
           "prefix": draw(st.sampled_from(["", "px"])), "alias": draw(st.sampled_from(["default", "second"]))}
    views, shared = [], []
    for i in range(nv):
        # views of one URL are told apart by alias and prefix; other ones have URLs of their own
        place = (draw(st.sampled_from([None, "default", "second"])), draw(st.sampled_from([None, "", "px", "py"])))
        v = {"alias": place[0], "prefix": place[1], "timeout": draw(st.sampled_from([600, 60, 60, None, None, 0])), "style": draw(st.integers(0, 2)),
             "echo": ["Accept", "X-Kind", "Cookie"], "vary": draw(st.sampled_from(VARY + ["Accept-Language", "Accept-Language, X-Kind"])),
             "headers": draw(st.sampled_from([{}, {"X-A": "1"}, {"Last-Modified": "Thu, 01 Jan 2015 00:00:00 GMT"}, {"Expires": "0"}, {"ETag": '"e"'}])),
             "cookie": draw(st.sampled_from([0, 0, 1])), "behave": draw(behaviours(7)), "tags": draw(st.sampled_from([None, [], ["X0"]]))}
        key = (place[0] or "default", place[1] or "")
        own = site != "decorator" or key in shared
        shared.append(key)
        v["path"] = "%d/" % i if own else "s/"
        if site == "decorator" and draw(st.integers(0, 9)) == 0:
            v["bare"] = 1
        views.append(v)
    ops = []
    for _ in range(draw(st.integers(6, 20))):
        o = draw(st.sampled_from(["req"] * 12 + ["tick", "inv"]))
        if o == "tick":
            ops.append({"o": "tick", "dt": draw(st.sampled_from([1, 7, 31, 61]))})
        elif o == "inv":
            ops.append({"o": "inv", "tags": ["X0"]})
        elif ops and draw(st.integers(0, 3)) and ops[-1]["o"] == "req":
            op = dict(draw(st.sampled_from([x for x in ops if x["o"] == "req"][-3:])))      # again, or almost
            op.pop("short", None)
            w = draw(st.sampled_from(["", "", "", "short", "hdr", "method", "auth", "behave", "url", "lang", "host"]))
            if w == "hdr":
                op["hdr"] = dict(op["hdr"], **{"Accept-Language": "al%d;" % draw(st.integers(1, 2))}) if draw(st.integers(0, 2)) == 0 else draw(headers())
            elif w == "method":
                op["method"] = draw(st.sampled_from(["GET", "HEAD", "POST"]))
            elif w == "short":
                op["short"] = 1
            elif w == "auth":
                op["auth"] = 1 - op["auth"]
            elif w == "behave":
                op["behave"] = draw(behaviours(2))
            elif w == "url":
                op["url"] = views[op["view"]]["path"] + draw(st.sampled_from(["", "?a=1", "?a=2", "u/"]))
            elif w == "lang" and cfg["i18n"]:
                op["lang"] = draw(st.sampled_from(["en", "de"]))
            elif w == "host":
                op["host"] = draw(st.sampled_from([None, "other.example.com"]))
            ops.append(op)
        else:
            i = draw(st.integers(0, nv - 1))
            op = {"o": "req", "view": i, "url": views[i]["path"] + draw(st.sampled_from(["", "", "", "?a=1", "?a=2", "u/"])),
                  "method": draw(st.sampled_from(["GET"] * 6 + ["HEAD", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH"])),
                  "hdr": draw(headers()), "auth": draw(st.integers(0, 1)), "behave": draw(behaviours(9))}
            if cfg["i18n"]:
                op["lang"] = draw(st.sampled_from(["en", "de"]))
            if draw(st.integers(0, 9)) == 0:
                op["nosession"] = 1
            if draw(st.integers(0, 9)) == 0:
                op["short"] = 1
            if draw(st.integers(0, 9)) == 0:
                op["host"] = "other.example.com"
            if draw(st.integers(0, 5)) == 0:
                op["hdr"]["Accept-Language"] = draw(st.sampled_from(["al1;", "al2;"]))
            ops.append(op)
    for v in views:
        v.pop("path")
    return {"engine": "webrun", "cfg": cfg, "data": [0], "templates": {}, "fns": [], "views": views, "ops": ops}


def cases(tier):
    return programs()


def judge(case, out):
    msg, m = webmodel.judge(case, out, CATS)
    s = m.stats
    labels = set(m.labels) | {k for k, v in s.items() if v}
    reqs = {str([o.get(k) for k in ("url", "host", "lang", "method", "hdr")]) for o in case["ops"] if o["o"] == "req"}
    return msg, {"labels": sorted(labels), "nontrivial": bool(s["pserved"] and s["refused"] and len(reqs) > 1)}
