"""Templates with cached fragments: source text and fresh rendering of a small tree language.

Nodes: [text, s] [show, i] [fn, j] [frag, spec, body] [add, tags, form] [addv, i] [addl, depth] [prevent] [with, body] [for, n, body]
[if, i, k, then, else] [include, name] [block, id, body] [boom, i, k]
[mark, i] (data put in by a second pass) [switch] (another thread does something)
"""

import re


BAD = ["badn", "nothing", "undefined", "lists.2", "'1.5'"]
TTL = [5, 60, 600]


class Boom(Exception):
    pass


class BadTimeout(Exception):
    pass


def name_src(spec, depth):
    form = spec.get("nform", 0)
    src = {0: "'%s'", 1: "nm.%s", 2: "'%s'|safe", 3: "no.%s"}[form] % spec["id"] if form != 4 else spec["id"][1:]
    for d in range(depth if spec.get("looped") else 0):
        src += "|concat:'.'|concat:i%d" % (d + 1)
    return src


def source(nodes, depth, blocks, child):
    """Source of the nodes; outermost blocks go to the list child, when the template has a base one."""
    out = []
    for n in nodes:
        k = n[0]
        if k == "text":
            out.append(n[1])
        elif k == "show":
            out.append("{{ v.%d }}" % n[1])
        elif k == "fn":
            out.append("{{ fns.%d }}" % n[1])
        elif k == "lvar":
            out.append("{{ i%d }}" % n[1])
        elif k == "frag":
            s = n[1]
            args = []
            for j, t in enumerate(s["tags"]):
                form = s.get("form", 0) if j == 0 else 0
                args.append(["'%s'" % t, "tg.%s" % t, "'%s'|concat:'%s'" % (t[0], t[1:])][form])
            if s.get("vtag") is not None:
                args.append("'V'|concat:v.%d" % s["vtag"])
            if s.get("ltag") is not None:
                args.append("'Y'|concat:i%d" % s["ltag"])
            if s.get("kw") is not None:
                args.append("tags=kw.%s" % s["id"])
            if s.get("tloop"):
                args.append("timeout=i%d|ttl" % s["tloop"])
            elif s.get("timeout") is not None:
                args.append("timeout=%s" % (BAD[s.get("tvar", 0)] if s["timeout"] == "bad" else ("n%d" if s.get("tvar") else "%d") % s["timeout"]))
            if s.get("nocache"):
                args.append("nocache=%d" % (s["nocache"] - 1))
            if s.get("phased"):
                args.append("phased=%d" % (s["phased"] - 1))
            out.append("{%% cache_tagging %s %s %%}" % (name_src(s, depth), " ".join(args)))
            out.append("{%% probe '%s' %s %%}" % (s["id"], " ".join("i%d" % (d + 1) for d in range(depth if s.get("looped") else 0))))
            out.append(source(n[2], depth, blocks, child))
            out.append("{% end_cache_tagging %}")
        elif k == "add":
            form = n[2] if len(n[1]) > 1 or n[2] else 0
            if form == 0:
                out.append("{%% cache_add_tags %s %%}" % " ".join("'%s'" % t for t in n[1]))
            elif form == 1:
                out.append("{%% cache_add_tags kw.%s %%}" % add_key(n[1]))
            else:
                out.append("".join("{%% cache_add_tags tg.%s %%}" % t for t in n[1]))
        elif k == "addv":
            out.append("{%% cache_add_tags 'V'|concat:v.%d %%}" % n[1])
        elif k == "addl":
            out.append("{%% cache_add_tags 'Y'|concat:i%d %%}" % n[1])
        elif k == "prevent":
            out.append("{% cache_tagging_prevent %}")
        elif k == "with":
            out.append("{% with q=1 z=v %}" + source(n[1], depth, blocks, child) + "{% endwith %}")
        elif k == "for":
            out.append("{%% for i%d in lists.%d %%}" % (depth + 1, n[1]) + source(n[2], depth + 1, blocks, child) + "{% endfor %}")
        elif k == "if":
            out.append("{%% if v.%d > %d %%}" % (n[1], n[2]) + source(n[3], depth, blocks, child)
                       + ("{% else %}" + source(n[4], depth, blocks, child) if n[4] else "") + "{% endif %}")
        elif k == "include":
            out.append("{%% include '%s' %%}" % n[1])
        elif k == "block":
            body = source(n[2], depth, blocks, None)
            if child is not None:
                out.append("{%% block %s %%}old{%% endblock %%}" % n[1])
                child.append("{%% block %s %%}%s{%% endblock %%}" % (n[1], body))
            else:
                out.append("{%% block %s %%}%s{%% endblock %%}" % (n[1], body))
        elif k == "boom":
            out.append("{%% boom v.%d %d %%}" % (n[1], n[2]))
        elif k == "mark":
            out.append("[[%d]]" % n[1])
        elif k == "switch":
            out.append("{% switch %}")
    return "".join(out)


def add_key(tags):
    return "add_" + "_".join(tags)


def sources(name, tpl):
    """{template name: source}"""
    head = "{% load cache_tagging_tags %}"
    if tpl.get("extend"):
        child = []
        base = source(tpl["body"], 0, {}, child)
        return {name + "_base": head + base, name: "{%% extends '%s_base' %%}" % name + head + "".join(child)}
    return {name: head + source(tpl["body"], 0, {}, None)}


def walk(nodes):
    for n in nodes:
        yield n
        for part in n[1:]:
            if isinstance(part, list) and part and isinstance(part[0], list):
                for x in walk(part):
                    yield x


def context(case):
    """Variables of the templates besides the data."""
    kw, tg, nm, no = {}, {}, {}, {}
    for t in case["templates"].values():
        for n in walk(t["body"]):
            if n[0] == "frag":
                nm[n[1]["id"]], no[n[1]["id"]] = n[1]["id"], int(n[1]["id"][1:])
                for x in n[1]["tags"]:
                    tg[x] = x
                if n[1].get("kw") is not None:
                    kw[n[1]["id"]] = {"list": list, "tuple": tuple, "set": set}[n[1].get("kwform", "list")](n[1]["kw"])
            elif n[0] == "add":
                for x in n[1]:
                    tg[x] = x
                kw[add_key(n[1])] = {0: list, 1: set}[len(n[1]) % 2](n[1])
    return {"kw": kw, "tg": tg, "nm": nm, "no": no, "lists": {i: list(range(i)) for i in range(4)}, "n0": 0, "n5": 5, "n60": "60", "n600": 600,
            "badn": "soon", "nothing": None}


def timeout(spec, loops):
    return TTL[loops[spec["tloop"] - 1]] if spec.get("tloop") else spec.get("timeout")


def phase(spec, text, data):
    """The second pass."""
    return re.sub(r"\[\[(\d+)\]\]", lambda m: str(data[int(m.group(1))]), text) if spec.get("phased") == 2 else text


def fresh(case, nodes, data, loops=()):
    """Text of the nodes without any caching; raises Boom."""
    out = []
    for n in nodes:
        k = n[0]
        if k == "text":
            out.append(n[1])
        elif k == "mark":
            out.append("[[%d]]" % n[1])
        elif k == "show":
            out.append(str(data[n[1]]))
        elif k == "fn":
            out.append(str(data[case["fns"][n[1]]["var"]]))
        elif k == "lvar":
            out.append(str(loops[n[1] - 1]))
        elif k == "frag":
            if n[1].get("timeout") == "bad":
                raise BadTimeout()
            out.append(phase(n[1], fresh(case, n[2], data, loops), data))
        elif k == "with":
            out.append(fresh(case, n[1], data, loops))
        elif k == "for":
            for i in range(n[1]):
                out.append(fresh(case, n[2], data, loops + (i,)))
        elif k == "if":
            out.append(fresh(case, n[3] if data[n[1]] > n[2] else n[4], data, loops))
        elif k == "include":
            out.append(fresh(case, case["templates"][n[1]]["body"], data))
        elif k == "block":
            out.append(fresh(case, n[2], data, loops))
        elif k == "boom":
            if data[n[1]] == n[2]:
                raise Boom()
    return "".join(out)
