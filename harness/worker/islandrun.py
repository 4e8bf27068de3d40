"""Engine for uncached islands: NoCache itself and template fragments with nocache=1."""
import boot
from boot import clock, hook, exc_info
import vbackends
import codec
import islands
from cache_dependencies.nocache import NoCache
from sessions import session

CANARY = [0]


def canary(*args):
    CANARY[0] += 1
    return 1


class Trap(object):
    def __reduce__(self):
        return canary, ()


def changed(s, i):
    i %= len(s)
    return s[:i] + ("y" if s[i] == "x" else "x") + s[i + 1:]


def variant(kind, s, i):
    r = {"suffix": s + "x", "prefix": "x" + s, "short": s[:-1], "case": s.swapcase(), "changed": changed(s, i), "empty": "",
         "space": " " + s, "twice": s + s}[kind]
    return r if r != s else s + "x"


def lookalike(nc, p):
    """A text resembling an island of the instance, which it is not."""
    t, s, d, code = nc.tag_name, nc.secret, nc.pickle({"a": Trap()}), "canary()"
    kind, i = p[1], p[2]
    if kind.startswith("secret_"):
        return '<%s secret="%s" data="%s">%s</%s>' % (t, variant(kind[7:], s, i), d, code, t)
    return {
        "swapped": '<%s data="%s" secret="%s">%s</%s>' % (t, d, s, code, t),
        "nodata": '<%s secret="%s">%s</%s>' % (t, s, code, t),
        "emptydata": '<%s secret="%s" data="">%s</%s>' % (t, s, code, t),
        "nosecret": '<%s data="%s">%s</%s>' % (t, d, code, t),
        "quotes": "<%s secret='%s' data='%s'>%s</%s>" % (t, s, d, code, t),
        "noquotes": "<%s secret=%s data=%s>%s</%s>" % (t, s, d, code, t),
        "spaces": '<%s  secret="%s" data="%s">%s</%s>' % (t, s, d, code, t),
        "newline": '<%s\nsecret="%s" data="%s">%s</%s>' % (t, s, d, code, t),
        "gap": '< %s secret="%s" data="%s">%s</%s>' % (t, s, d, code, t),
        "attr": '<%s secret="%s" data="%s" x="1">%s</%s>' % (t, s, d, code, t),
        "longtag": '<%sx secret="%s" data="%s">%s</%s>' % (t, s, d, code, t),
        "othertag": '<%s secret="%s" data="%s">%s</%s>' % (changed(t, i), s, d, code, changed(t, i)),
        "escaped": '&lt;%s secret="%s" data="%s">%s</%s>' % (t, s, d, code, t),
        "cut": '<%s secret="%s" data="%s" >' % (t, s, d),
        "unclosed": '<%s secret="%s" data="%s">%s' % (t, s, d, code),
        "end": '</%s>' % t,
        "reversed": '</%s>%s<%s>' % (t, code, t),
    }[kind]


def soup_text(nc, toks):
    table = {"T": nc.tag_name, "S": nc.secret, "D": nc.pickle({"a": Trap()}), "DD": nc.pickle({}), "O": changed(nc.secret, 1),
             "<T": "<" + nc.tag_name, "</T>": nc.end(), "M": nc.start(a=Trap()), "H": '<%s secret="%s" data="' % (nc.tag_name, nc.secret),
             "code": "canary()"}
    return "".join(table.get(t, t) for t in toks)


def direct(case):
    nc = NoCache(case["secret"], **({"tag_name": case["tag"]} if case["tag"] else {}))
    others = [NoCache(o, **({"tag_name": case["tag"]} if case["tag"] else {})) for o in case.get("others", [])]
    raw = []
    for p in case["pieces"]:
        if p[0] == "text":
            raw.append(p[1])
        elif p[0] == "island":
            raw.append(nc.start(**codec.dec(p[1])) + islands.source(p[2], p[3]) + nc.end())
        elif p[0] == "foreign":
            o = others[p[1] % len(others)]
            raw.append(o.start(a=Trap()) + "canary()" + o.end())
        elif p[0] == "look":
            raw.append(lookalike(nc, p))
        elif p[0] == "soup":
            raw.append(soup_text(nc, p[1]))
    tpl = "".join(raw)
    out, side = [], []
    todo = list(case.get("side", ()))

    def deliver(data, s):
        ticks = []

        def tick(x):
            ticks.append(x)
            if todo and s + 1 < case["threads"]:        # another thread delivers the same meanwhile
                data = todo.pop(0)
                side.append([data] + session(s).call(lambda: deliver(data, s + 1)))
        env = dict(codec.dec(data), tick=tick, canary=canary, nocache=nc)
        try:
            res = nc.handle(tpl, **env)
        except Exception as e:
            res = exc_info(e)
        return [res, ticks]
    for data in case["deliveries"]:
        CANARY[0] = 0
        out.append(deliver(data, 0) + [CANARY[0]])
    return {"raw": raw, "out": out, "side": side, "start": nc.start(), "end": nc.end()}


class Template(object):
    def __init__(self, case):
        import django_cache_dependencies as dcd
        from django.template import engines
        vbackends.locmem_reset()
        clock.reset()
        hook.reset()
        dcd.caches.__init__()
        self.handled = case.get("by") == "handle"
        src = ["{% load cache_tagging_tags %}A"] + self.source("frag", "t1", case.get("nocache", "1"), case["pieces"]) + ["C"]
        self.tpl = engines["django"].from_string("".join(src))

    def source(self, name, tag, nocache, pieces):
        src = ["{%% cache_tagging '%s' '%s'%s %%}B" % (name, tag, "" if nocache is None else " nocache=" + nocache)]
        for p in pieces:
            if p[0] == "text":
                src.append(p[1])
            elif p[0] == "var":
                src.append("{{ %s }}" % p[1])
            elif p[0] == "island":
                src.append("{%% nocache %s %%}" % " ".join("%s=%s" % kv for kv in sorted(p[1].items()))
                           + islands.source(p[2], p[3]) + "{% endnocache %}")
            elif p[0] == "frag":
                src += self.source(p[1], p[2], p[3], p[4])
        return src + ["{% end_cache_tagging %}"]

    def one(self, op):
        """What was rendered, unless it is an invalidation."""
        from django_cache_dependencies import caches, nocache
        if op["o"] == "inv":
            caches["default"].invalidate_tags(op.get("tag", "t1"))
            return None
        ticks, early = [], None
        data = codec.dec(op["data"])
        try:
            res = str(self.tpl.render(dict(data, tick=ticks.append, on=True, off=False)))
            if self.handled:        # the islands are left to the application
                early, ticks[:] = list(ticks), []
                res = nocache.handle(res, **dict(data, tick=ticks.append, nocache=nocache))
        except Exception as e:
            res = exc_info(e)
        caches["default"].close()
        return [res, ticks, early]


def template(case):
    t = Template(case)
    out = []
    for op in case["ops"]:
        r = t.one(op)
        if r is None:
            clock.advance(op.get("dt", 0))
        else:
            out.append(r)
    return {"out": out}


def run(case):
    return template(case) if case.get("mode") == "template" else direct(case)
