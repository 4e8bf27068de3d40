"""C24: saving or deleting a registered model invalidates exactly its tags."""
from hypothesis import strategies as st

RULE = ("registrations of handlers (object or signal arguments, one tag or collections, several per model, aliases, directly or through "
        "autodiscover) and histories of ORM operations (create, save, get_or_create, delete with cascades, ...) by two threads, all cache "
        "entries read after each; non-trivial: at least two operations invalidated an entry while another entry stayed")
EXAMPLES = {"quick": 400, "thorough": 12000}
ASSUMPTIONS = ["operations of the ORM which send no signals (update, bulk_create) are not followed",
               "tags are computed by the handler from the instance as it is when the signal is sent"]
MODELS = ["A", "B", "C"]
VOCAB = [m + x for m in MODELS for x in ("", ".pk:1", ".pk:2", ".pk:3", ".cat:0", ".cat:1", ".cat:2", ".cat:0.pk:1", ".cat:1.pk:1")] + ["other"]


def TAG(m, w, pk, cat, rows):
    """A tag which the handler gives for a row, probably."""
    cat = rows[pk][0] if pk in rows else cat
    return m + {"all": "", "pk": ".pk:%s" % pk, "cat": ".cat:%s" % cat, "comp": ".cat:%s.pk:%s" % (cat, pk)}[w]


@st.composite
def programs(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4]))
    handlers = []
    for _ in range(n):
        h = {"model": draw(st.sampled_from(["A", "A", "B", "B", "C"])), "form": draw(st.sampled_from(["obj", "kw", "named", "instance", "callable"])),
             "what": draw(st.lists(st.sampled_from(["all", "pk", "cat", "comp"]), min_size=1, max_size=3)),
             "coll": draw(st.sampled_from(["list", "tuple", "set", "fset", "one"]))}
        if h["coll"] != "one" and draw(st.integers(0, 9)) == 0:
            h["what"] = []
        if draw(st.booleans()):
            h["alias"] = draw(st.sampled_from(["default", "second", "second", None, ""]))
        handlers.append(h)
    keys = ["k%d" % i for i in range(draw(st.integers(2, 6)))]
    used = sorted({h["model"] for h in handlers})
    vocab = [t for t in VOCAB if t[0] in used] + ["other"]
    ops, rows, tx = [], {m: {} for m in MODELS}, False
    for i in range(draw(st.integers(8, 18))):
        o = "put" if i % 3 == 1 else draw(st.sampled_from(["put", "create", "create", "save", "save", "save", "delete", "delete", "update", "tx"]))
        m = draw(st.sampled_from(used * 3 + MODELS))
        op = {"o": o, "th": draw(st.integers(0, 1)), "rd": draw(st.integers(0, 1))}
        if o == "put":
            for k in draw(st.sampled_from([keys, keys, keys[:1]])):
                likely = [h for h in handlers if h["what"]]
                if likely and draw(st.integers(0, 3)):
                    h = draw(st.sampled_from(likely))
                    tags = [TAG(h["model"], draw(st.sampled_from(h["what"])), draw(st.sampled_from(sorted(rows[h["model"]]) or [1])),
                                draw(st.integers(0, 2)), rows[h["model"]])]
                    alias = (h.get("alias") or "default") if draw(st.integers(0, 4)) else draw(st.sampled_from(["default", "second"]))
                else:
                    tags, alias = [], draw(st.sampled_from(["default", "default", "second"]))
                tags += draw(st.lists(st.sampled_from(vocab), min_size=0 if tags else 1, max_size=1))
                ops.append(dict(op, alias=alias, key=k, tags=sorted(set(tags))))
            continue
        elif o == "create":
            pk = draw(st.integers(1, 3))
            how = draw(st.integers(0, 4))
            if pk in rows[m] and how in (0, 4):
                how = 1
            op.update(m=m, pk=pk, cat=draw(st.integers(0, 2)), how=how)
            if m != "A" and rows["A"] and draw(st.integers(0, 3)):
                op["a"] = draw(st.sampled_from(sorted(rows["A"])))
            if how == 2 and pk in rows[m]:
                pass
            else:
                old = rows[m].get(pk)
                rows[m][pk] = [op["cat"], op.get("a") if "a" in op or how != 3 or not old else old[1]]
        elif o in ("save", "update"):
            m = next((x for x in [m] + used if rows[x]), None)
            if not m:
                continue
            op.update(m=m, pk=draw(st.sampled_from(sorted(rows[m]))), cat=draw(st.integers(0, 2)), fields=draw(st.integers(0, 1)))
        elif o == "delete":
            how = draw(st.integers(0, 2))
            if rows["A"] and draw(st.booleans()):
                m = "A"
            if not rows[m] and how == 0:
                continue
            op.update(m=m, how=how, pk=draw(st.sampled_from(sorted(rows[m]))) if rows[m] else 1)
            gone = sorted(rows[m]) if how == 2 else [op["pk"]]
            for p in gone:
                rows[m].pop(p, None)
            if m == "A":
                for p in [p for p, r in rows["B"].items() if r[1] in gone]:
                    del rows["B"][p]
                for r in rows["C"].values():
                    if r[1] in gone:
                        r[1] = None
        else:
            op = {"o": "finish" if tx else "begin", "th": 0, "rd": op["rd"]}
            tx = not tx
        ops.append(op)
    return {"engine": "ormrun", "handlers": handlers, "keys": keys, "ops": ops, "split": draw(st.integers(0, 1)), "tuple": draw(st.integers(0, 1)),
            "discover": draw(st.sampled_from([0, 0, 0, 1, 2])), "gc": draw(st.sampled_from([0, 0, 0, 1])),
            "iso": draw(st.sampled_from([None, None, "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE"]))}


def cases(tier):
    return programs()


def judge(case, out):
    rows = {m: {} for m in MODELS}
    entries = {}                    # (alias, key) -> [tags, sure]
    tx, locked = False, set()       # locked: (alias, tag)
    hits = 0
    labels = set()

    def changed(m, pk, cat):
        res = set()
        for h in case["handlers"]:
            if h["model"] == m:
                alias = h.get("alias") or "default"
                what = h["what"][:1] if h["coll"] == "one" else h["what"]
                for w in what:
                    res.add((alias, m + {"all": "", "pk": ".pk:%s" % pk, "cat": ".cat:%s" % cat, "comp": ".cat:%s.pk:%s" % (cat, pk)}[w]))
        return res

    for n, (op, r) in enumerate(zip(case["ops"], out["out"])):
        if "error" in r:
            return "operation %d %s: %s" % (n, op, r["error"]), {}
        o = op["o"]
        inv = set()
        if o == "put":
            sure = not any((op["alias"], t) in locked for t in op["tags"])
            if sure or (op["alias"], op["key"]) not in entries:
                entries[op["alias"], op["key"]] = [set(op["tags"]), sure]
            else:
                # stored or not: the old entry may stay
                entries[op["alias"], op["key"]] = [set(op["tags"]) & entries[op["alias"], op["key"]][0], False]
        elif o == "create":
            m, pk, how = op["m"], op["pk"], op["how"]
            exists = pk in rows[m]
            if how == 2 and exists:
                pass
            else:
                old = rows[m].get(pk)
                rows[m][pk] = [op["cat"], op.get("a") if "a" in op or how != 3 or not old else old[1]]
                if how != 4:
                    inv = changed(m, pk, op["cat"])
        elif o in ("save", "update"):
            rows[op["m"]][op["pk"]][0] = op["cat"]
            if o == "save":
                inv = changed(op["m"], op["pk"], op["cat"])
        elif o == "delete":
            m = op["m"]
            gone = sorted(rows[m]) if op["how"] == 2 else [op["pk"]]
            gone = [p for p in gone if p in rows[m]]
            for p in gone:
                inv |= changed(m, p, rows[m].pop(p)[0])
            if m == "A":
                for p in [p for p, x in rows["B"].items() if x[1] in gone]:
                    inv |= changed("B", p, rows["B"].pop(p)[0])
                    labels.add("cascade")
                for x in rows["C"].values():
                    if x[1] in gone:
                        x[1] = None
        elif o == "begin":
            tx = True
        else:
            tx = False
            for (alias, k), e in entries.items():
                if any((alias, t) in locked for t in e[0]):
                    e[1] = False
            locked = set()
        if inv:
            labels.add("change")
            if tx and op.get("th", 0) == 0:
                locked |= inv
            dead = [k for k, e in entries.items() if any((k[0], t) in inv for t in e[0])]
            for k in dead:
                del entries[k]
            if dead and entries:
                hits += 1
                labels.add("invalidated")
        have = {tuple(x) for x in r["have"]}
        wrong = have - set(entries)
        if wrong:
            return "after operation %d %s entries are served although they were invalidated: %s" % (n, op, sorted(wrong)), {}
        lost = {k for k, e in entries.items() if e[1]} - have
        if lost:
            return "after operation %d %s entries are lost although none of their tags was invalidated: %s" % (
                n, op, sorted((k, sorted(entries[k][0])) for k in lost)), {}
    if case["discover"]:
        labels.add("discover")
    return None, {"labels": sorted(labels), "nontrivial": hits >= 2}
