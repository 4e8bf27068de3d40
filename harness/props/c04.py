"""C04: composite entries inherit the tags of everything they were built from."""
from hypothesis import strategies as st

from gen import Profile, Ops, finalize, config, histories, wide, some, explicit, computations, dressed, INV_TFS, TFS
import model

RULE = ("a random DAG of 2-7 entries with tags, built top-down by nested computations (compute-if-missing or get/compute/set by hand, "
        "children also read in batches, untracked or abandoned), then tags are invalidated, entries expire or are stored directly and "
        "other roots are built by other threads, every entry being probed; non-trivial: an entry was missed only because of an inherited "
        "tag, and a composite one was hit")
EXAMPLES = {"quick": 600, "thorough": 15000}

P = Profile(sessions=2, keys=7, tags=["a", "b", "c", "d", "e"], wirings=["django", "django", "proxy", "plain"],
            isos=["READ COMMITTED", "READ COMMITTED", "REPEATABLE READ"])
SPEC = Profile(
    sessions=2, keys=5, tags=["a", "b", "c", "d"], versions=[[None], [None], [2], [None, 2]],
    weights={"set": 5, "get": 5, "many": 2, "gosc": 5, "inv": 3, "open": 5, "close": 5, "adv": 1},
    dts=[0, 1], timeouts=[None], modes=["u", "t", "t", "t"], raises=[None], inner_extra=["open", "close"], body_len=5, max_depth=4,
    min_ops=8, max_ops=30)


VI = st.integers(0, 1)


@st.composite
def dag(draw):
    n = draw(st.integers(2, 7))
    nodes = []
    for i in range(n):
        kids = draw(st.lists(st.integers(i + 1, n - 1), min_size=1 if i == 0 else 0, max_size=3, unique=True)) if i < n - 1 else []
        nodes.append({"kids": kids, "tags": draw(st.lists(st.sampled_from(P.tags), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=2, unique=True))})
    return nodes


def expand(draw, nodes, i, budget):
    """Operations which compute (or read) node i."""
    node = nodes[i]
    body = []
    budget[0] -= 1
    if node["kids"] and budget[0] > 0:
        if draw(st.integers(0, 3)) == 0:
            body.append({"o": "many", "ks": ["u%d" % k for k in node["kids"]], "mode": "t", "it": draw(st.sampled_from(P.iters)), "vi": draw(VI),
                         "cf": draw(st.integers(0, 3))})
        for k in node["kids"]:
            how = draw(st.integers(0, 11))
            if how == 0:
                body.append({"o": "get", "k": "u%d" % k, "mode": draw(st.sampled_from(["u", "t"])), "vi": draw(VI), "cf": 0})
            elif how == 1:
                body.append(store(draw, nodes, k))
            elif budget[0] > 0:
                body.append(expand(draw, nodes, k, budget))
    op = store(draw, nodes, i)
    op.update(o="gosc", body=body, catch=True, args=[], kw={})
    if draw(st.booleans()):
        op["manual"] = 1
    if draw(st.integers(0, 14)) == 0:
        op["raise"] = "yes"
    return op


def store(draw, nodes, i):
    return {"o": "set", "k": "u%d" % i, "tags": nodes[i]["tags"], "tf": draw(st.sampled_from(TFS)),
            "to": draw(st.sampled_from([None, None, None, 60])), "cf": draw(st.integers(0, 5)), "vi": draw(VI)}


@st.composite
def trees(draw):
    cfg = draw(config(P))
    nodes = draw(dag())
    vs = explicit(draw, cfg, [draw(st.sampled_from([None, None, 2]))])
    ops = []
    plan = []
    for _ in range(draw(st.integers(1, 4))):
        plan += ["build"] + draw(st.lists(st.sampled_from(["build", "set", "adv", "probe"]), max_size=2)) + ["inv1", "probe"]
        plan += draw(st.lists(st.sampled_from(["build", "inv", "set", "adv"]), max_size=1))
    for what in plan:
        s = draw(st.integers(0, 1))
        if what == "build":
            op = expand(draw, nodes, draw(st.integers(0, len(nodes) - 1)) if draw(st.booleans()) else 0, [12])
        elif what in ("inv", "inv1"):
            node = nodes[draw(st.integers(0, len(nodes) - 1))]
            pool = node["tags"] if what == "inv1" and node["tags"] else P.tags
            op = {"o": "inv", "tags": draw(st.lists(st.sampled_from(pool), min_size=1, max_size=1 if what == "inv1" else 2, unique=True)),
                  "tf": draw(st.sampled_from(INV_TFS)), "cf": 0, "vi": draw(VI)}
        elif what == "set":
            op = store(draw, nodes, draw(st.integers(0, len(nodes) - 1)))
        elif what == "adv":
            ops.append({"o": "adv", "dt": draw(st.sampled_from([0, 1, 61]))})
            continue
        else:
            for i in range(len(nodes)):
                ops.append({"o": "get", "s": s, "k": "u%d" % i, "mode": "u", "vi": draw(VI), "cf": 0})
            continue
        op["s"] = s
        ops.append(op)
    for i in range(len(nodes)):
        ops.append({"o": "get", "s": i % 2, "k": "u%d" % i, "mode": "u", "vi": draw(VI), "cf": 0})
    return {"engine": "hist", "cfg": cfg, "ops": dressed(draw, finalize(ops, vs))}


def cases(tier):
    return some((18, trees()), (6, histories(SPEC)), (7, computations(P)), (1, wide(P)))


def judge(case, out):
    return model.judge(case, out, lambda lab, c, o: lab["miss_inherited"] > 0 and lab["hit_composite"] > 0)
