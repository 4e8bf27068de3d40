"""C11: under REPEATABLE READ and SERIALIZABLE no stale data is served after a commit."""
from hypothesis import strategies as st

RULE = ("2-3 threads with programs of cache transactions around simulated snapshot-isolated database transactions (writers which "
        "invalidate before, after or around the change, commit, roll back, conflict or nest; readers which compute composite values "
        "from their snapshot), interleaved by a generated schedule at operation boundaries; non-trivial: a value missing a committed "
        "change was offered to the cache, and a fresh value was read from it")
EXAMPLES = {"quick": 700, "thorough": 30000}
ASSUMPTIONS = ["a store happens less than the lifetime of a released lock (6 s) after the writer's end",
               "database transactions are inside of the cache transactions (as documented) and snapshot-isolated, first committer wins"]

TAGS = ["a", "b"]
DT = [0, 0, 0, 0.5, 1]


@st.composite
def keys(draw):
    out = {"k0": {"tags": draw(st.lists(st.sampled_from(TAGS), min_size=1, max_size=2, unique=True)), "kids": []}}
    if draw(st.booleans()):
        out["k1"] = {"tags": draw(st.lists(st.sampled_from(TAGS), max_size=1)), "kids": ["k0"]}
    return out


@st.composite
def program(draw, names, role):
    prog = []
    for _ in range(draw(st.integers(1, 2))):
        prog += adv(draw)
        prog.append(tx(draw, names, role, 0))
    prog += adv(draw)
    if draw(st.booleans()):
        prog.append({"o": "read", "k": draw(st.sampled_from(names))})
    return prog


def adv(draw):
    if draw(st.integers(0, 9)) == 9:
        return [{"o": "adv", "dt": draw(st.sampled_from([4, 6, 10]))}]
    return [{"o": "adv", "dt": draw(st.sampled_from(DT))}] if draw(st.booleans()) else []


def tx(draw, names, role, depth):
    body = []
    kinds = {"w": ["write", "write", "calc", "inv"], "r": ["calc", "calc", "read"], "rw": ["write", "calc", "calc", "inv"]}[role]
    for _ in range(draw(st.integers(1, 3))):
        body += adv(draw)
        o = draw(st.sampled_from(kinds))
        op = {"o": o}
        if o == "write":
            op["tag"] = draw(st.sampled_from(TAGS))
            op["inv"] = draw(st.sampled_from(["before", "after", "both"]))
            if op["inv"] != "before" and draw(st.integers(0, 2)) == 0:
                op["body"] = [{"o": "calc", "k": draw(st.sampled_from(names))}]
        elif o == "inv":
            op["tag"] = draw(st.sampled_from(TAGS))
        else:
            op["k"] = draw(st.sampled_from(names))
        if depth == 0 and draw(st.integers(0, 4)) == 0:
            op = tx(draw, names, role, 1)
        body.append(op)
    body += adv(draw)
    t = {"o": "tx", "body": body}
    if depth == 0 and draw(st.integers(0, 3)) == 0:
        t["rollback"] = 1
    return t


@st.composite
def programs(draw, points, isos, delays=(0, 0, 0, 2)):
    ks = draw(keys())
    names = sorted(ks)
    roles = draw(st.sampled_from([["r", "w"], ["r", "w"], ["rw", "w"], ["rw", "rw"], ["r", "w", "w"], ["r", "r", "w"], ["rw", "r", "w"]]))
    case = {"engine": "sched", "keys": ks, "threads": [draw(program(names, r)) for r in roles],
            "cfg": {"iso": draw(st.sampled_from(isos)), "delay": draw(st.sampled_from(delays)), "points": points,
                    "wiring": draw(st.sampled_from(["django", "django", "proxy", "plain"]))}}
    if case["cfg"]["wiring"] == "plain":
        case["cfg"]["raw"] = draw(st.booleans())
    return case


@st.composite
def scheduled(draw, points, isos, gaps, delays=(0, 0, 0, 2)):
    case = draw(programs(points, isos, delays))
    case["plan"] = draw(st.lists(st.tuples(gaps, st.integers(0, 1)).map(list), min_size=1, max_size=10))
    case["first"] = draw(st.integers(0, 2))
    return case


def cases(tier):
    return scheduled("ops", ["REPEATABLE READ", "REPEATABLE READ", "SERIALIZABLE"], st.integers(0, 6))


def judge(case, out):
    lab = out["labels"]
    return out["msg"], {"labels": sorted(lab), "nontrivial": lab.get("stale_store", 0) > 0 and lab.get("hit_fresh", 0) > 0}
