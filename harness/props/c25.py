"""C25: the generic cache adapter keeps the cache API's contract."""
from hypothesis import strategies as st

import codec

RULE = ("caches built on the adapter from five methods (prefixes, versions, key functions, a shared storage), histories of all operations "
        "with all forms of arguments, unusual keys and values, time passing; all keys of all versions compared with a dictionary after each; "
        "non-trivial: at least three different batch, counter or version operations, one of them on present and one on missing keys")
EXAMPLES = {"quick": 900, "thorough": 40000}
ASSUMPTIONS = ["values are not None (the API has no way to tell them from missing ones)",
               "how long a value lives after incr() or a move of its version is left open once its former timeout has passed"]
KEYS = ["z" * 246, "z" * 247, "z" * 248, "z" * 249, "\x1f", "\x20", "!", "~", "\x80", "a", "b", "c", "", "key with spaces", "x" * 240, "y" * 300, "\x00", "tab\t", "é☃", "\x7f", "a:b", "1:a", "%s", "\n"]
OPS = ["set", "set", "set", "add", "get", "delete", "has_key", "in", "get_many", "get_many", "set_many", "set_many", "delete_many", "incr", "incr",
       "decr", "incr_version", "incr_version", "decr_version", "tick", "clear", "close"]
VALUE = st.one_of(st.integers(-3, 3), st.integers(0, 10 ** 20), st.sampled_from(["", "v", "é", False, True, 0.5]), st.lists(st.integers(0, 3), max_size=2),
                  st.tuples(st.integers(0, 1)), st.binary(max_size=3), st.dictionaries(st.sampled_from(["x", "__value"]), st.integers(0, 2), max_size=2))


@st.composite
def programs(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    caches = [{"prefix": draw(st.sampled_from([None, "", "p"])) if not i else "q", "version": draw(st.sampled_from([None, None, 2])),
               "func": draw(st.sampled_from([0, 0, 1]))} for i in range(n)]
    if n == 2:
        caches[1]["func"] = caches[0]["func"]
    keys = sorted(set(draw(st.lists(st.sampled_from(KEYS), min_size=2, max_size=4))))
    ops = []
    for _ in range(draw(st.integers(3, 20))):
        o = draw(st.sampled_from(OPS))
        op = {"o": o, "c": draw(st.integers(0, n - 1))}
        if o not in ("in", "tick", "clear", "close") and draw(st.integers(0, 2)) == 0:
            op["version"] = draw(st.sampled_from([None, 0, 1, 2, 3]))
        if o in ("set", "add", "set_many") and draw(st.booleans()):
            op["timeout"] = draw(st.sampled_from([None, 5, 50, 1000, 0]))
        if o in ("set", "add", "get", "delete", "has_key", "in", "incr", "decr", "incr_version", "decr_version"):
            op["key"] = draw(st.sampled_from(keys))
        if o in ("set", "add"):
            op["value"] = codec.enc(draw(VALUE))
        if o in ("incr", "decr") and draw(st.booleans()):
            op["delta"] = draw(st.sampled_from([1, 2, -1, 0, 10 ** 18]))
        if o in ("incr_version", "decr_version") and draw(st.booleans()):
            op["delta"] = draw(st.sampled_from([1, 2, -1, 0]))
        if o in ("get_many", "delete_many"):
            op["keys"] = draw(st.lists(st.sampled_from(keys), max_size=4))
            op["coll"] = draw(st.sampled_from(["list", "tuple", "set", "iter", "dict", "gen"]))
        if o == "set_many":
            op["data"] = [[k, codec.enc(draw(VALUE))] for k in draw(st.lists(st.sampled_from(keys), max_size=4, unique=True))]
        if o == "tick":
            op["dt"] = draw(st.sampled_from([1, 6, 51, 301]))
        ops.append(op)
    return {"engine": "adapter", "caches": caches, "shared": int(n == 2), "keys": keys, "versions": list(range(-8, 11)), "ops": ops}


def cases(tier):
    return programs()


class Drop(Exception):
    pass


def judge(case, out):
    data = {}                   # (cache, version, key) -> [value, expire, expire at latest]
    now = 0
    seen, present, missing = set(), False, False
    for n, (op, r) in enumerate(zip(case["ops"], out["out"])):
        o, c = op["o"], op["c"]
        own = case["caches"][c]["version"] or 1
        v = op.get("version")
        v = own if v is None else v
        if o == "tick":
            now += op["dt"]
            for k in [k for k, e in data.items() if e[2] <= now]:
                del data[k]
        where = "operation %d %s" % (n, op)

        def peek(key, version=v):
            e = data.get((c, version, key))
            return e and e[0]

        def live(key, version=v):
            e = data.get((c, version, key))
            if e and e[1] <= now:
                raise Drop()
            return e is not None

        def put(key, value, timeout):
            t = now + (300 if timeout is None else timeout)
            if t > now:
                data[c, v, key] = [value, t, t]
            else:
                data.pop((c, v, key), None)

        want = None
        err = None
        try:
            if o == "set":
                put(op["key"], codec.dec(op["value"]), op.get("timeout"))
            elif o == "add":
                want = not live(op["key"])
                if want:
                    put(op["key"], codec.dec(op["value"]), op.get("timeout"))
            elif o == "get":
                want = peek(op["key"]) if live(op["key"]) else None
            elif o == "delete":
                data.pop((c, v, op["key"]), None)
                want = r.get("res")
            elif o == "has_key":
                want = live(op["key"])
            elif o == "in":
                want = live(op["key"], own)
            elif o == "get_many":
                want = {k: peek(k) for k in op["keys"] if live(k)}
            elif o == "set_many":
                for k, x in op["data"]:
                    put(k, codec.dec(x), op.get("timeout"))
                want = codec.dec(r.get("res"))
            elif o == "delete_many":
                for k in op["keys"]:
                    data.pop((c, v, k), None)
                want = codec.dec(r.get("res"))
            elif o in ("incr", "decr"):
                if not live(op["key"]):
                    err = "ValueError"
                    missing = True
                else:
                    x = peek(op["key"])
                    if not isinstance(x, (int, float)):
                        raise Drop()
                    d = op.get("delta", 1)
                    want = x + (d if o == "incr" else -d)
                    e = data[c, v, op["key"]]
                    data[c, v, op["key"]] = [want, min(e[1], now + 300), max(e[2], now + 300)]
                    present = True
            elif o in ("incr_version", "decr_version"):
                if not live(op["key"]):
                    err = "ValueError"
                    missing = True
                else:
                    d = op.get("delta", 1)
                    want = v + (d if o == "incr_version" else -d)
                    e = data.pop((c, v, op["key"]))
                    data[c, want, op["key"]] = [e[0], min(e[1], now + 300), max(e[2], now + 300)]
                    present = True
            elif o == "clear":
                for k in [k for k in data if k[0] == c or case["shared"]]:
                    del data[k]
                want = codec.dec(r.get("res"))
        except Drop:                # left open: from here on nothing is known
            break
        if o not in ("set", "add", "get", "delete", "tick", "clear", "close"):
            seen.add(o)
        if err:
            if r.get("error", [None])[0] != err:
                return "%s gives %s, expected %s" % (where, r.get("error") or r["res"], err), {}
        elif "error" in r:
            return "%s raises %s" % (where, r["error"]), {}
        elif codec.enc(want) != r["res"]:
            return "%s gives %r, expected %r" % (where, r["res"], codec.enc(want)), {}
        if "bad" in r and r["bad"] != (r["warned"] > 0):
            return "%s gives %s" % (where, "%d warnings for a key which suits every backend" % r["warned"] if r["warned"] else "no warning"), {}
        if "broken" in r:
            return "after %s get() raises %s" % (where, r["broken"]), {}
        for i, state in enumerate(r["state"]):
            have = {(x[1], x[0]): x[2] for x in state}
            sure = {(k[1], k[2]): codec.enc(e[0]) for k, e in data.items() if k[0] == i and e[1] > now}
            maybe = {(k[1], k[2]): codec.enc(e[0]) for k, e in data.items() if k[0] == i and e[2] > now}
            for k in set(sure) | set(have):
                if k not in case_range(case, k):
                    continue
                if k in sure and have.get(k) != sure[k]:
                    return "after %s key %r version %d has %r, expected %r" % (where, k[1], k[0], have.get(k), sure[k]), {}
                if k not in sure and maybe.get(k) != have[k]:
                    return "after %s key %r version %d has %r, expected nothing" % (where, k[1], k[0], have[k]), {}
    return None, {"labels": sorted(seen), "nontrivial": len(seen) >= 3 and present and missing}


def case_range(case, k):
    return (k,) if k[0] in case["versions"] else ()
