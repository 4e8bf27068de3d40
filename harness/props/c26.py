"""C26: the file backend stores atomically and returns what was stored."""
from hypothesis import strategies as st

import codec
from props.c25 import VALUE

RULE = ("histories of all operations on one directory (prefixes, versions, timeout forms, default timeouts, restarts, removed directories), compared with the "
        "framework's file backend in a directory of its own; in some operations a file-system call fails or kills the process, another process "
        "reads at every call or writes at one; non-trivial: at least four kinds of operations, and a fault, observation or foreign write which took place")
EXAMPLES = {"quick": 700, "thorough": 25000}
ASSUMPTIONS = ["a failing or interrupted file-system call has no effect, except a failing write, which stores the first half of its data",
               "whether a failed write raises is left open",
               "another process acts between file-system calls of a set(), not within the framework's own read-then-write operations",
               "the cache directory is not written by others; keys name no paths outside it"]
KEYS = ["a", "b", "", "key with spaces", "y" * 300, "\x00", "tab\t", "é☃", "a/b", "%s", "*", 5]
OPS = ["set"] * 6 + ["add", "add", "get", "delete", "has_key", "in", "get_many", "set_many", "set_many", "delete_many", "incr", "decr", "get_or_set", "get_or_set",
                     "incr_version", "decr_version", "tick", "clear", "rmdir", "restart"]
WRITES = ("set", "add", "set_many", "incr", "get_or_set")
TIMEOUT = st.sampled_from([None, None, 5, 5.5, 50, 1000, 0, -1, 10 ** 9])


@st.composite
def one(draw, o, keys, n, uniq=None):
    op = {"o": o, "c": draw(st.integers(0, n - 1))}

    def value():
        if uniq is not None:
            return codec.enc("new %s" % uniq)
        return codec.enc(draw(VALUE))
    if o not in ("in", "clear", "rmdir", "tick", "restart") and draw(st.integers(0, 2)) == 0:
        op["version"] = draw(st.sampled_from([None, 1, 2, 3]))
    if o in ("set", "add", "set_many", "get_or_set") and draw(st.booleans()):
        op["timeout"] = draw(TIMEOUT)
    if o in ("set", "add", "get", "delete", "has_key", "in", "incr", "decr", "incr_version", "decr_version", "get_or_set"):
        op["key"] = draw(st.sampled_from(keys))
    if o in ("set", "add", "get_or_set"):
        op["value"] = value()
        if o != "get_or_set" and draw(st.integers(0, 3)) == 0:
            op["pos"] = 1
        if o == "get_or_set":
            op["fn"] = draw(st.integers(0, 1))
        if o == "set" and uniq is None and draw(st.integers(0, 9)) == 0:
            op["bad"] = 1
    if o in ("incr", "decr") and draw(st.booleans()):
        op["delta"] = draw(st.sampled_from([1, 2, -1, 10 ** 18]))
    if o in ("incr_version", "decr_version"):
        op["delta"] = draw(st.sampled_from([1, -1]))
    if o in ("get_many", "delete_many"):
        op["keys"] = draw(st.lists(st.sampled_from(keys), max_size=4))
        op["coll"] = draw(st.sampled_from(["list", "tuple", "set", "iter"]))
    if o == "set_many":
        op["data"] = [[k, value()] for k in draw(st.lists(st.sampled_from(keys), max_size=3, unique=True))]
    if o == "tick":
        op["dt"] = draw(st.sampled_from([1, 6, 51, 301, 1001]))
    if o == "rmdir":
        op["deep"] = draw(st.integers(0, 1))
    return op


@st.composite
def programs(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    case = {"engine": "filerun", "caches": [{"prefix": draw(st.sampled_from([None, "", "p"])) if not i else "q",
                                             "version": draw(st.sampled_from([None, None, 2]))} for i in range(n)]}
    if draw(st.integers(0, 2)) == 0:
        case["default"] = draw(st.sampled_from([None, 5, 100]))
    keys = case["keys"] = draw(st.lists(st.sampled_from(KEYS), min_size=2, max_size=3, unique=True))
    case["versions"] = list(range(-2, 8))
    mode = draw(st.sampled_from(["plain", "fault", "fault", "fault", "cull", "nested", "nested"]))
    if mode == "cull":
        case["max"] = draw(st.integers(1, 5))
        case["freq"] = draw(st.sampled_from([0, 1, 2, 3]))
    ops, moves = [], 0
    for i in range(draw(st.integers(2, 14))):
        o = draw(st.sampled_from(OPS))
        if o in ("incr_version", "decr_version"):
            moves += 1
            if moves > 4:
                o = "set"
        special = draw(st.integers(0, 2)) == 0
        faulty = mode == "fault" and special and o in WRITES
        op = draw(one(o, keys, n, i if faulty else None))
        if faulty:
            op["fault"] = {"at": draw(st.integers(1, 8)), "kind": draw(st.sampled_from(["os", "io", "perm", "crash"])), "not": ["remove", "unlink"]}
            if op["fault"]["kind"] == "crash":
                op["fault"]["not"] = []
        elif mode in ("plain", "fault") and o not in ("tick", "rmdir", "restart"):
            op["watch"] = draw(st.integers(0, 1))
        elif mode == "cull" and special and o in WRITES:
            op["cull"] = 1
        ops.append(op)
    if mode == "nested":
        op = draw(one(draw(st.sampled_from(["set", "set", "set_many"])), keys, n, "outer"))
        o = draw(st.sampled_from(["set", "set", "delete", "clear", "add", "set_many", "rmdir"]))
        op["nested"] = {"at": draw(st.integers(1, 8)), "op": draw(one(o, keys, n, "inner"))}
        ops.append(op)
    case["ops"] = ops
    return case


def cases(tier):
    return programs()


FIXED = [("bounded-%d" % f, {"engine": "filerun", "caches": [{"prefix": None, "version": None}], "keys": ["a"], "versions": [1], "max": 10, "freq": f,
                             "ops": [{"o": "fill", "n": 160}]}) for f in (0, 2, 3)]


def judge(case, out):
    extra = 0
    seen, did = set(), set()
    for n, (op, r) in enumerate(zip(case["ops"], out["out"])):
        where = "operation %d %s" % (n, {k: v for k, v in op.items()})
        o = op["o"]
        if o == "fill":
            if r["wrong"]:
                return "%s: wrong values %s" % (where, r["wrong"]), {}
            # a write culls with probability 1/5; 120 writes in a row without it have probability 2e-12
            if r["filled"] > case["max"] + 120:
                return "%s: %d entries stored, limit is %d" % (where, r["filled"], case["max"]), {}
            continue

        def cell(s):
            return {tuple(map(repr, x[:3])): x[3] for x in s}
        state, want = cell(r["state"]), cell(r["want"])
        for s in [r["state"]] + r.get("seen", []):
            for x in s:
                if isinstance(x[3], dict) and "raises" in x[3]:
                    return "%s: reading %r version %d raises %s" % (where, x[1], x[2], x[3]["raises"]), {}
        if "lib" in r:
            before = cell(r["before"])
            seen.add(o)
            fired, lib, ref = r["fired"], r["lib"], r["ref"]
            special = fired or op.get("cull") or "nested" in r
            if fired:
                did.add("fault " + op["fault"]["kind"])
            if "nested" in r:
                did.add("foreign " + op["nested"]["op"]["o"])
            if not special and not op.get("bad"):
                if ("error" in lib) != ("error" in ref) or ("error" in lib and lib["error"][0] != ref["error"][0]):
                    return "%s gives %s, the framework's backend gives %s" % (where, lib, ref), {}
                if "error" not in lib and o not in ("delete", "clear", "delete_many", "set", "set_many") and lib != ref:
                    return "%s gives %s, the framework's backend gives %s" % (where, lib, ref), {}
            if "nested" in r:
                orders = [cell(x) for x in r["orders"]]
                for k in set(state) | set(orders[0]) | set(orders[1]):
                    if state.get(k) not in [x.get(k) for x in orders]:
                        return "%s: %s is %r, expected one of %r" % (where, k, state.get(k), [x.get(k) for x in orders]), {}
                continue
            for k in set(state) | set(want) | set(before):
                ok = [want.get(k)]
                if fired:
                    ok.append(before.get(k))
                if op.get("cull"):
                    ok.append(None)
                if state.get(k) not in ok:
                    return "%s: %s is %r, expected one of %r" % (where, k, state.get(k), ok), {}
                for s in r["seen"]:
                    did.add("watch")
                    if cell(s).get(k) not in (before.get(k), state.get(k)):
                        return "%s: meanwhile %s is %r, %r before and %r after" % (where, k, cell(s).get(k), before.get(k), state.get(k)), {}
            if fired and op["fault"]["kind"] == "crash":
                extra += 2
        elif state != want:
            return "%s: state %r, expected %r" % (where, state, want), {}
        if o == "rmdir":
            extra = 0
        if r["files"] > r["want_files"] + extra:
            return "%s: %d files are left, expected %d" % (where, r["files"], r["want_files"] + extra), {}
    return None, {"labels": sorted(did | seen), "nontrivial": len(seen) >= 4 and bool(did)}
