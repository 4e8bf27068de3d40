"""C16: deferred queries give the individual results with one backend call per group."""
import json

from hypothesis import strategies as st

import codec

RULE = ("a program which creates deferred batch reads (1-3 executors, different arguments, key collections of several kinds, callbacks "
        "which consume the following results or raise), combines them in any order, with themselves and nested, adds callbacks later, and "
        "reads each of them once; non-trivial: a read deferred combines at least three reads of at least two groups, or two of one group")
EXAMPLES = {"quick": 1500, "thorough": 50000}
KEYS = ["k0", "k1", "k2", "k3", "k4"]
ASSUMPTIONS = ["a deferred is combined only while its reading has not begun, and read once",
               "arguments of executors differ by more than the type of equal numbers (1 and True)"]

CRIT_ARGS = [[], [], [1], [2], [[1, 2]], [{"$": "set", "v": [1]}], [{"$": "set", "v": [2]}], [{"$": "fset", "v": [1, 2]}], [{"$": "fset", "v": [2, 1]}],
             [{"$": "dict", "v": [["x", 1], ["y", 2]]}], [{"$": "dict", "v": [["y", 2], ["x", 1]]}],
             [[{"$": "set", "v": [1]}]], [{"$": "dict", "v": [["x", 1]]}], [{"$": "dict", "v": [["x", 2]]}]]
CRIT_KW = [{}, {}, {"version": 1}, {"version": {"$": "dict", "v": [["x", [1]]]}}, {"version": {"$": "set", "v": [1]}}, {"version": {"$": "set", "v": [2]}}]


@st.composite
def leaf(draw, kind, ids, depth):
    ids[0] += 1
    lf = {"id": ids[0], "kind": kind}
    if kind == "get":
        lf["keys"] = draw(st.lists(st.sampled_from(KEYS), max_size=4, unique=draw(st.booleans())))
        lf["coll"] = draw(st.sampled_from(["list", "tuple", "set", "fset", "keys", "values", "dict"]))
    lf["args"] = draw(st.lists(st.integers(0, 2), max_size=1))
    lf["kw"] = draw(st.dictionaries(st.sampled_from(["x"]), st.integers(0, 2), max_size=1))
    lf["pull"] = draw(st.sampled_from([0, 0, 0, 1, 2])) if depth else 0
    lf["raise"] = draw(st.sampled_from([0, 0, 0, 1]))
    return lf


@st.composite
def programs(draw):
    ids = [0]
    execs = [{"store": {k: draw(st.integers(0, 2)) for k in draw(st.lists(st.sampled_from(KEYS), max_size=5, unique=True))},
              "extra": draw(st.sampled_from([0, 0, 1]))} for _ in range(draw(st.integers(1, 3)))]
    stmts, tops, seqs, alive = [], [], [], []

    def avail(seq):
        """How many results the entries produce when drained (pulled ones belong to their puller)."""
        return seq

    n = draw(st.integers(3, 14))
    for _ in range(n):
        o = draw(st.sampled_from(["new", "new", "new", "add", "add", "add", "cb", "read"]))
        live = [i for i in range(len(tops)) if alive[i]]
        if o == "new" or not live:
            kind = draw(st.sampled_from(["get", "get", "get", "none"]))
            crit = {"kind": kind, "exec": draw(st.integers(0, len(execs) - 1)) if kind == "get" else None}
            if kind == "get":
                crit["args"], crit["kw"] = draw(st.sampled_from(CRIT_ARGS)), draw(st.sampled_from(CRIT_KW))
            leaves = [draw(leaf(kind, ids, 0)) for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2])))]
            stmts.append({"o": "new", "crit": crit, "leaves": leaves})
            tops.append(crit)
            seqs.append(len(leaves))
            alive.append(True)
        elif o == "add":
            i, j = draw(st.sampled_from(live)), draw(st.sampled_from(live))
            if seqs[i] + seqs[j] > 40:
                continue
            stmts.append({"o": "add", "i": i, "j": j})
            tops[i] = tops[j]
            seqs[i] += seqs[j]
        elif o == "cb":
            i = draw(st.sampled_from(live))
            lf = draw(leaf(tops[i]["kind"], ids, 1))
            lf["pull"] = min(lf["pull"], 2)
            stmts.append({"o": "cb", "i": i, "leaf": lf})
            seqs[i] += 1
        else:
            i = draw(st.sampled_from(live))
            stmts.append({"o": "read", "i": i, "iter": draw(st.integers(0, 1))})
            alive[i] = False
    order = draw(st.permutations([i for i in range(len(tops)) if alive[i]]))
    for i in order:
        stmts.append({"o": "read", "i": i, "iter": draw(st.integers(0, 1))})
    return {"engine": "deferq", "execs": execs, "stmts": stmts}


def cases(tier):
    return programs()


def canonical(x):
    return codec.enc(codec.dec(x))


def criterion(crit):
    return canonical(crit.get("args", [])), {k: canonical(v) for k, v in crit.get("kw", {}).items()}


def alone(case, crit, lf):
    """What the read gives when nothing is combined with it."""
    if lf["kind"] == "none":
        return None
    e = case["execs"][crit["exec"]]
    args, kw = criterion(crit)
    return sorted([k, [crit["exec"], k, e["store"][k]] + args + sorted([k2, v] for k2, v in kw.items())]
                  for k in set(lf["keys"]) if k in e["store"])


class Out(Exception):
    pass


def take(case, rest):
    """Consumes one result of the reversed sequence: (result, raised)."""
    if not rest:
        raise Out()
    crit, lf = rest.pop(0)
    got = []
    for _ in range(lf.get("pull", 0)):
        r, raised = take(case, rest)
        got.append(["raised", r] if raised else r)
    return [lf["id"], alone(case, crit, lf), got, lf["args"], sorted([k, v] for k, v in lf["kw"].items())], bool(lf["raise"])


def expect(case, seq):
    rest = list(reversed(seq))
    res = []
    while rest:
        try:
            r, raised = take(case, rest)
        except Out:                 # a callback asked for more than there is: it ends like the whole
            break
        res.append(["raised", r] if raised else r)
    return res


def norm(x):
    return json.loads(json.dumps(x))


def judge(case, out):
    objs, reads = [], iter(out["out"])
    labels, nontrivial = set(), False
    if "error" in out:
        return "%s raises %s" % tuple(out["error"]), {}
    for s in case["stmts"]:
        if s["o"] == "new":
            objs.append([[s["crit"], lf] for lf in s["leaves"]])
            if len(objs) > 1:
                labels.add("several")
            top = s["crit"]
            objs[-1] = {"seq": objs[-1], "top": top}
        elif s["o"] == "add":
            i, j = objs[s["i"]], objs[s["j"]]
            if s["i"] == s["j"]:
                labels.add("self_add")
            i["seq"] = i["seq"] + list(j["seq"])
            i["top"] = j["top"]
        elif s["o"] == "cb":
            objs[s["i"]]["seq"].append([objs[s["i"]]["top"], s["leaf"]])
        else:
            r = next(reads)
            seq = objs[s["i"]]["seq"]
            want = norm(expect(case, seq))
            got = norm(r["res"])
            for w, g in zip(want, got):
                if w != g:
                    return "deferred %d: result %r, alone it is %r (all: %r, expected %r)" % (s["i"], g, w, got, want), {}
            if len(want) != len(got):
                return "deferred %d gave %d results instead of %d: %r, expected %r" % (s["i"], len(got), len(want), got, want), {}
            groups = {}
            for crit, lf in seq:
                if lf["kind"] == "get":
                    key = json.dumps([crit["exec"], *criterion(crit)], sort_keys=True)
                    groups.setdefault(key, []).append(set(lf["keys"]))
            calls = {}
            for no, keys, args, kw in r["calls"]:
                key = json.dumps([no, args, dict(kw)], sort_keys=True)
                if key in calls:
                    return "deferred %d called the executor %s twice with the same arguments" % (s["i"], key), {}
                calls[key] = set(keys)
            if calls != {k: set().union(*v) for k, v in groups.items()}:
                return "deferred %d: executor calls %s, expected the unions %s" % (
                    s["i"], sorted((k, sorted(v)) for k, v in calls.items()), sorted((k, sorted(set().union(*v))) for k, v in groups.items())), {}
            if (len(seq) >= 3 and len(groups) >= 2) or any(len(v) > 1 for v in groups.values()):
                nontrivial = True
            if len(groups) >= 2:
                labels.add("groups")
            if any(lf.get("pull") for _, lf in seq):
                labels.add("pull")
            if any(lf.get("raise") for _, lf in seq):
                labels.add("raise")
    return None, {"labels": sorted(labels), "nontrivial": nontrivial}
