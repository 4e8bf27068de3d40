"""C19: only islands bearing the secret are executed."""
from hypothesis import strategies as st

import codec
import islands
from props import c18

RULE = ("texts of pieces resembling islands (secrets of other instances, similar secrets, missing, reordered or damaged parts, other tags), "
        "genuine islands and random sequences of marker parts; non-trivial: at least two resembling pieces of different kinds")
EXAMPLES = {"quick": 2500, "thorough": 60000}
ASSUMPTIONS = ["damaged data within an otherwise complete marker bearing the secret is left open",
               "a marker bearing the secret without its end is generated only at the end of a text"]
KINDS = ["secret_suffix", "secret_prefix", "secret_short", "secret_case", "secret_changed", "secret_changed", "secret_empty", "secret_space",
         "secret_twice", "swapped", "nodata", "emptydata", "nosecret", "quotes", "noquotes", "spaces", "newline", "gap", "attr", "longtag",
         "othertag", "escaped", "cut", "end", "reversed"]
SECRET = st.sampled_from(["f0e4c2f76c58916ec258f246851bea09", "abc", "a.b", "s+c(r", "x{0}y", "[sx]", "abc$", "é^", "a|b", "\\d", ".*", "1", "x?"])
TOK = ["<T", "</T>", "S", "O", "D", "DD", '"', '"', " ", ">", ">", ' secret="', ' data="', '" data="', '">', "<", "/", "code", "H", "txt", "="]


@st.composite
def programs(draw):
    secret = draw(SECRET)
    others = draw(st.lists(st.one_of(SECRET, st.text("abcx.0", min_size=1, max_size=4)).filter(lambda s: s != secret), min_size=1, max_size=2))
    pieces = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["look", "look", "look", "foreign", "text", "island"]))
        if k == "look":
            pieces.append(["look", draw(st.sampled_from(KINDS)), draw(st.integers(0, 40))])
        elif k == "foreign":
            pieces.append(["foreign", draw(st.integers(0, 1))])
        elif k == "text":
            pieces.append(["text", draw(st.one_of(c18.TEXT, c18.JUNK))])
        else:
            pieces.append(["island", codec.enc({"a": draw(c18.CAPT)}), draw(c18.progs({"a"}, 1, [])), draw(c18.STYLES)])
    if draw(st.integers(0, 4)) == 0:
        pieces.append(["look", "unclosed", 0])
    return {"engine": "islandrun", "secret": secret, "tag": draw(st.sampled_from([None, None, "nc", "nc+py", "n.c"])), "others": others,
            "pieces": pieces, "deliveries": [codec.enc({})]}


@st.composite
def soups(draw):
    return {"engine": "islandrun", "secret": draw(SECRET), "tag": draw(st.sampled_from([None, "nc"])), "others": [],
            "pieces": [["soup", draw(st.lists(st.sampled_from(TOK), min_size=1, max_size=25))]], "deliveries": [codec.enc({})]}


def cases(tier):
    return st.integers(0, 3).flatmap(lambda i: programs() if i else soups())


def genuine(text, start, end):
    """Is there a complete marker of the instance in the text?"""
    head = start[:start.index(' data="') + 7]
    i = -1
    while True:
        i = text.find(head, i + 1)
        if i < 0:
            return False
        j = text.find('"', i + len(head))
        if j > i + len(head) and text.startswith('">', j) and text.find(end, j) >= 0:
            return True


def judge(case, out):
    res, ticks, fired = out["out"][0]
    raw = "".join(out["raw"])
    if case["pieces"][0][0] == "soup":
        if genuine(raw, out["start"], out["end"]):
            return None, {"labels": ["genuine"]}
        if res != raw or fired:
            return "the text %r is delivered as %r, code or data executed: %d times" % (raw, res, fired), {}
        return None, {"labels": ["soup"], "nontrivial": len(raw) > 40}
    pieces = [r if p[0] != "island" else [codec.dec(p[1]), p[2]] for p, r in zip(case["pieces"], out["raw"])]
    want = islands.deliver(pieces, {}, [])
    if res != want:
        return "the text %r is delivered as %r, expected %r" % (raw, res, want), {}
    if fired:
        return "code or data of text without the secret has been executed: %r" % raw, {}
    kinds = {p[1] for p in case["pieces"] if p[0] == "look"} | {"foreign" for p in case["pieces"] if p[0] == "foreign"}
    return None, {"labels": sorted(kinds), "nontrivial": len(kinds) > 1}
