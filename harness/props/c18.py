"""C18: islands are evaluated afresh on every delivery, the text around them is untouched."""
from hypothesis import strategies as st

import codec
import islands

RULE = ("texts of literal pieces and 0-6 islands (programs with echo, variables (also missing ones), conditions, loops, functions, comprehensions, islands "
        "writing further islands; several indentations, line ends, comments), delivered up to 3 times with different variables, directly "
        "and as cached template fragments (nested ones, which leave their islands to the outer one or to the application); non-trivial: at least two islands (or one writing another) and two deliveries")
EXAMPLES = {"quick": 1500, "thorough": 40000}
ASSUMPTIONS = ["the code of an island contains no string literal of several lines and not the end marker",
               "the first line of an island's code is not a comment"]

NAMES = ["a", "b", "c"]
TEXT = st.text(st.sampled_from("ab <>\"'\\&é1/\n\t=:.☃"), max_size=8)
JUNK = st.sampled_from(["", "x", "\\1\\g<0>", "</nocache>", "<nocache:py>", "a\r\nb", "  ", "&lt;", "\\", "</p>\n<p>"])
SECRETS = st.sampled_from(["f0e4c2f76c58916ec258f246851bea09", "a.b", "s+c(r", "x{0}y", "[s]", "abc$", "é^", "{", "a|b", "\\d", "p%sq"])
LIT = st.one_of(st.integers(-5, 300), TEXT, st.booleans(), st.none(), st.lists(st.integers(0, 9), max_size=3))
CAPT = st.one_of(LIT, st.binary(max_size=4), st.tuples(st.integers(0, 9), TEXT), st.frozensets(st.integers(0, 1), max_size=1),
                 st.dictionaries(TEXT, st.integers(0, 9), max_size=1), st.floats(allow_nan=False), st.integers(2 ** 60, 2 ** 70))
STYLES = st.fixed_dictionaries({
    "base": st.sampled_from(["", "    ", "\t", "  ", "            ", " \t"]), "unit": st.sampled_from(["    ", "  ", "\t"]),
    "lead": st.sampled_from(["\n", "\n", "", "  \n", "\r\n", "\n\n"]), "eol": st.sampled_from(["\n", "\n", "\r\n"]),
    "blank": st.sampled_from([0, 0, 1, 2]), "trail": st.sampled_from(["", "", "  ", "\t"]), "tail": st.sampled_from(["\n", "", "\n    "])})


@st.composite
def exprs(draw, names):
    k = draw(st.sampled_from(["v", "v", "lit", "cat"] if names else ["lit"]))
    if k == "v":
        return ["v", draw(st.sampled_from(sorted(names)))]
    if k == "lit":
        return ["lit", draw(LIT)]
    return ["cat", ["v", draw(st.sampled_from(sorted(names)))], ["lit", draw(LIT)]]


@st.composite
def progs(draw, names, depth, cur, first=True):
    """Statements; names: variables defined so far, cur: current variables (visible to islands written by the code)."""
    names = set(names)
    prog = []
    for i in range(draw(st.sampled_from([1, 1, 2, 3] if not first else [0, 1, 1, 2, 3, 4]))):
        kinds = ["echo", "echo", "set", "tick", "echo_lines", "comment", "try"]
        if depth < 2:
            kinds += ["if", "for", "island"]
        if names:
            kinds += ["gen", "def"]
        k = draw(st.sampled_from(kinds))
        if not prog and k in ("comment", "echo_lines"):
            k = "echo"
        if k in ("echo", "echo_lines"):
            es = draw(st.lists(exprs(names), min_size=1, max_size=3))
            prog.append(["echo", es] if k == "echo" else ["echo_lines", es, draw(st.integers(0, 1))])
        elif k == "set":
            e = draw(exprs(names))
            n = draw(st.sampled_from(NAMES + ["z"]))
            prog.append(["set", n, e])
            names.add(n)
        elif k == "try":
            prog.append(["try", draw(st.sampled_from(NAMES + ["z", "w"]))])
        elif k == "tick":
            prog.append(["tick", draw(st.integers(0, 9))])
        elif k == "comment":
            prog.append(["comment", draw(st.integers(0, 1))])
        elif k == "if":
            prog.append(["if", draw(exprs(names)), draw(progs(names, depth + 1, cur, False)),
                         draw(progs(names, depth + 1, cur, False)) if draw(st.booleans()) else []])
        elif k == "for":
            n = draw(st.sampled_from(NAMES))
            body = draw(progs(names | {n}, depth + 1, cur, False))
            prog.append(["for", n, draw(st.lists(st.integers(0, 9), max_size=3)), body])
        elif k == "gen":
            prog.append(["gen", draw(st.sampled_from(sorted(names))), draw(st.lists(st.integers(0, 9), max_size=3))])
        elif k == "def":
            prog.append(["def", draw(st.sampled_from(sorted(names))), draw(exprs(names))])
        elif k == "island":
            caps = [[n, draw(exprs(names))] for n in sorted(draw(st.sets(st.sampled_from(NAMES + ["w"]), max_size=2)))]
            prog.append(["island", caps, draw(progs(set(cur) | {c[0] for c in caps}, depth + 1, cur)), draw(STYLES)])
    return prog


@st.composite
def directs(draw):
    cur = draw(st.sampled_from([[], ["a"], ["a", "b"], ["b", "data", "match"]]))
    pieces = []
    for _ in range(draw(st.integers(0, 8))):
        if draw(st.booleans()):
            pieces.append(["text", draw(st.one_of(TEXT, JUNK))])
        else:
            caps = {n: draw(CAPT) for n in draw(st.sets(st.sampled_from(NAMES + ["tpl"]), max_size=3))}
            pieces.append(["island", codec.enc(caps), draw(progs(set(cur) | set(caps), 0, cur)), draw(STYLES)])
    return {"engine": "islandrun", "secret": draw(SECRETS), "tag": draw(st.sampled_from([None, None, "nocache", "nc+py", "x.y"])),
            "pieces": pieces, "deliveries": [codec.enc({n: draw(CAPT) for n in cur}) for _ in range(draw(st.integers(1, 3)))]}


VAL = st.one_of(st.integers(0, 99), st.sampled_from(["p", "qq", "é", "r s"]))


OFF = [None, None, "0", "off", "''", "missing"]
ON = ["1", "1", "on", "'x'"]


@st.composite
def template_pieces(draw, cur, depth, names):
    pieces = []
    for _ in range(draw(st.integers(1, 6 - 2 * depth))):
        k = draw(st.sampled_from(["text", "var", "island", "island"] + ["frag", "frag"] * (depth < 2 and bool(names))))
        if k == "text":
            pieces.append(["text", draw(TEXT)])
        elif k == "var":
            pieces.append(["var", draw(st.sampled_from(cur))])
        elif k == "frag":       # a fragment of its own, which leaves the islands to the one around it
            n = names.pop()
            tag = draw(st.sampled_from([n, n, "t1"]))
            pieces.append(["frag", n, tag, draw(st.sampled_from(OFF)), draw(template_pieces(cur, depth + 1, names))])
        else:
            caps = {n: draw(st.sampled_from(cur)) for n in draw(st.sets(st.sampled_from(NAMES + ["w"]), max_size=2))}
            pieces.append(["island", caps, draw(progs(set(cur) | set(caps), 0, cur)), draw(STYLES)])
    return pieces


@st.composite
def templates(draw):
    cur = draw(st.sampled_from([["a"], ["a", "b"], ["a", "tpl"], ["b", "self"], ["a", "b", "match"]]))
    names = ["f1", "f2", "f3"][:draw(st.sampled_from([0, 0, 1, 2, 3]))]
    used = list(names)
    case = {"engine": "islandrun", "mode": "template"}
    if draw(st.integers(0, 3)):
        case["nocache"] = draw(st.sampled_from(ON))
    else:
        # `handle` takes the variables as arguments
        cur = [n for n in cur if n not in ("tpl", "self")]
        case["nocache"], case["by"] = draw(st.sampled_from(OFF)), "handle"
    case["pieces"] = draw(template_pieces(cur, 0, names))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        if draw(st.integers(0, 3)):
            ops.append({"o": "show", "data": codec.enc({n: draw(VAL) for n in cur})})
        else:
            ops.append({"o": "inv", "dt": 1, "tag": draw(st.sampled_from(["t1"] + used))})
    return dict(case, ops=ops)


def braces(x):
    """Does the source contain the syntax of templates?"""
    if isinstance(x, str):
        return any(c in x for c in "{}%#") or "<" in x
    if isinstance(x, dict):
        return any(braces(v) for v in x.values())
    return isinstance(x, list) and any(braces(v) for v in x)


def cases(tier):
    return st.integers(0, 3).flatmap(lambda i: directs() if i else templates().filter(lambda c: not braces(c["pieces"])))


def writes(prog):
    return any(s[0] == "island" or any(isinstance(x, list) and x and isinstance(x[0], list) and writes(x) for x in s[1:] if s[0] in ("if", "for"))
               for s in prog)


def flat(pieces):
    for p in pieces:
        yield p
        if p[0] == "frag":
            for q in flat(p[4]):
                yield q


def facts(case, deliveries):
    pieces = list(flat(case["pieces"]))
    n = sum(p[0] == "island" for p in pieces)
    nested = any(p[0] == "island" and writes(p[2]) for p in pieces)
    labels = ["template" if case.get("mode") else "direct"] + (["nested"] if nested else []) + (["islands"] if n > 1 else [])
    labels += ["fragments"] if any(p[0] == "frag" for p in pieces) else []
    return {"labels": labels, "nontrivial": (n > 1 or nested) and deliveries > 1}


def diff(i, got, want):
    if got != want:
        return "delivery %d gives %r, expected %r" % (i, got, want)


def judge(case, out):
    if case.get("mode") == "template":
        return judge_template(case, out)
    for i, (data, (res, ticks, _)) in enumerate(zip(case["deliveries"], out["out"])):
        env = codec.dec(data)
        want_ticks = []
        pieces = [raw if p[0] != "island" else [codec.dec(p[1]), p[2]] for p, raw in zip(case["pieces"], out["raw"])]
        want = islands.deliver(pieces, env, want_ticks)
        msg = diff(i, res, want) or (diff(i, ticks, want_ticks) and "delivery %d: order of evaluation %r, expected %r" % (i, ticks, want_ticks))
        if msg:
            return msg, {}
    return None, facts(case, len(case["deliveries"]))


class Fragments(object):
    """What the cache holds: name of a fragment -> its pieces and its tags."""

    def __init__(self):
        self.kept = {}

    def pieces(self, name, tag, pieces, env):
        if name not in self.kept:
            res, tags = ["B"], {tag}
            for p in pieces:
                if p[0] == "text":
                    res.append(p[1])
                elif p[0] == "var":
                    res.append(str(env[p[1]]))
                elif p[0] == "frag":
                    inner, its = self.pieces(p[1], p[2], p[4], env)
                    res += inner
                    tags |= its
                else:
                    res.append([{n: env[v] for n, v in p[1].items()}, p[2]])
            self.kept[name] = res, tags
        return self.kept[name]

    def invalidate(self, tag):
        self.kept = {n: v for n, v in self.kept.items() if tag not in v[1]}


def judge_template(case, out):
    cache, shows, outs = Fragments(), 0, iter(out["out"])
    for op in case["ops"]:
        if op["o"] == "inv":
            cache.invalidate(op.get("tag", "t1"))
            continue
        env = codec.dec(op["data"])
        res, ticks, early = next(outs)
        want_ticks = []
        want = "A" + islands.deliver(cache.pieces("frag", "t1", case["pieces"], env)[0], env, want_ticks) + "C"
        if res != want or ticks != want_ticks:
            return "rendering %d gives %r (%r), expected %r (%r)" % (shows, res, ticks, want, want_ticks), {}
        if early:
            return "rendering %d evaluates islands which are left to the application: %r" % (shows, early), {}
        shows += 1
    return None, facts(case, shows)
