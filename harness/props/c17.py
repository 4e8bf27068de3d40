"""C17: combining dependencies is a union that never alters its operands."""
from hypothesis import strategies as st

RULE = ("a program over dependency objects (tags given in every form, dummies, composites of any nesting, copies) which combines, copies, "
        "evaluates, validates them and hands them to the cache for storing and invalidating, while another thread's transaction locks "
        "tags; the tags of every object are compared with a model of sets; non-trivial: at least one combination of two non-empty "
        "objects, and at least one invalid or locked report or an object used twice by the cache")
EXAMPLES = {"quick": 1200, "thorough": 40000}
ASSUMPTIONS = ["parts with different recorded versions of one tag are combined only by the constructor of the composite"]
TAGS = ["a", "b", "c", "d"]
DAY = 86400


@st.composite
def programs(draw):
    ops, kinds = [], []     # kinds: tags, dummy, comp (references parts), acc (owns its parts)
    n = draw(st.integers(4, 20))
    vs = draw(st.sampled_from([[None], [None], [2], [None, 2]]))
    size = []
    for _ in range(n):
        o = draw(st.sampled_from(["tags", "tags", "dummy", "comp", "comp", "acc", "copy", "extend", "extend", "extend", "eval", "eval",
                                  "valid", "set", "set", "get", "gosc", "inv", "inv", "txinv", "lock", "unlock", "probe"]))
        obj = st.integers(0, len(kinds) - 1) if kinds else None
        if o == "tags" or (obj is None and o not in ("acc", "dummy")):
            ops.append({"o": "new", "kind": "tags", "form": draw(st.sampled_from(["args", "list", "tuple", "set", "fset"])),
                        "tags": draw(st.lists(st.sampled_from(TAGS), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3))})
            kinds.append("tags")
            size.append(1)
        elif o == "dummy":
            ops.append({"o": "new", "kind": "dummy"})
            kinds.append("dummy")
            size.append(1)
        elif o == "acc":
            ops.append({"o": "new", "kind": "comp", "parts": []})
            kinds.append("acc")
            size.append(1)
        elif o == "comp":
            parts = draw(st.lists(obj, min_size=1, max_size=3))
            if sum(size[i] for i in parts) > 20:
                continue
            ops.append({"o": "new", "kind": "comp", "parts": parts})
            kinds.append("comp")
            size.append(1 + sum(size[i] for i in parts))
        elif o == "copy":
            i = draw(obj)
            ops.append(dict({"o": "copy", "i": i}, **draw(st.sampled_from([{}, {}, {"deep": 1}, {"pickle": 1}]))))
            kinds.append("acc" if kinds[i] == "comp" else kinds[i])
            size.append(size[i])
        elif o == "extend":
            mine = [i for i, k in enumerate(kinds) if k in ("acc", "tags")]
            if not mine:
                continue
            i, j = draw(st.sampled_from(mine)), draw(obj)
            if i == j:
                continue
            ops.append({"o": "extend", "i": i, "j": j})
            size[i] += size[j]
        elif o == "lock":
            ops.append({"o": "lock", "tags": draw(st.lists(st.sampled_from(TAGS), min_size=1, max_size=2, unique=True)),
                        "v": draw(st.sampled_from(vs))})
        elif o == "unlock":
            ops.append({"o": "unlock"})
        elif o == "get":
            ops.append({"o": "get", "k": draw(st.sampled_from(["u0", "u1"])), "v": draw(st.sampled_from(vs))})
        elif o == "probe":
            ops.append({"o": "probe", "i": draw(obj)})
        else:
            op = {"o": o, "i": draw(obj), "v": draw(st.sampled_from(vs))}
            if o in ("set", "gosc"):
                op["k"], op["val"] = draw(st.sampled_from(["u0", "u1"])), len(ops)
            if o == "txinv":
                op["again"] = draw(st.one_of(st.none(), obj))
            ops.append(op)
    for k in ("u0", "u1"):
        for v in vs:
            ops.append({"o": "get", "k": k, "v": v})
    return {"engine": "deps", "ops": ops, "wiring": draw(st.sampled_from(["plain", "django"]))}


def cases(tier):
    return programs()


class Obj(object):
    def __init__(self, kind, tags=(), parts=()):
        self.kind, self.tags, self.parts, self.rec, self.open = kind, set(tags), list(parts), {}, set()

    def alltags(self):
        s = set(self.tags)
        for p in self.parts:
            s |= p.alltags()
        return s

    def leaves(self):
        yield self
        for p in self.parts:
            for x in p.leaves():
                yield x


def judge(case, out):
    objs, cur, epoch, locked, held = [], {}, [0], {}, set()
    ents = {}
    labels = set()
    used = {}

    def fail(msg):
        return msg, {}

    def invalidate(v, tags):
        for t in tags:
            cur[(1 if v is None else v, t)] = None

    def make(v, tags):
        for t in tags:
            k = (1 if v is None else v, t)
            if cur.get(k) is None:
                epoch[0] += 1
                cur[k] = epoch[0]

    def recorded(o, v):
        """(tags certainly invalid, tags possibly invalid)"""
        sure, maybe = set(), set()
        for leaf in o.leaves():
            for t, e in leaf.rec.items():
                if cur.get((1 if v is None else v, t)) != e:
                    sure.add(t)
            maybe |= leaf.open
        return sure, maybe

    for n, (op, r) in enumerate(zip(case["ops"], out["out"])):
        o = op["o"]
        if "x" in r:
            return fail("step %d %s raised %s: %s" % (n, o, r["x"][0], r["x"][1]))
        r = r["r"]
        v = op.get("v")
        ver = 1 if v is None else v
        me = objs[op["i"]] if "i" in op else None
        if o == "new":
            objs.append(Obj(op["kind"], op.get("tags", ()), [objs[i] for i in op.get("parts", ())]))
        elif o == "copy":
            new = Obj(me.kind, me.alltags())
            for leaf in me.leaves():
                for t, e in leaf.rec.items():
                    if new.rec.get(t, e) != e:
                        new.open.add(t)
                    new.rec[t] = e
                new.open |= leaf.open
            for t in new.open:
                new.rec.pop(t, None)
            objs.append(new)
            labels.add("copy")
        elif o == "extend":
            other = objs[op["j"]]
            if me.kind == "tags" and other.kind != "tags":
                if r:
                    return fail("step %d: tags extended by another kind of dependency claim success" % n)
                continue
            if not r:
                return fail("step %d: extend refused" % n)
            if me.alltags() and other.alltags():
                labels.add("combined")
            me.tags |= other.alltags()
            for leaf in other.leaves():
                for t, e in leaf.rec.items():
                    if any(x.rec.get(t, e) != e for x in me.leaves()) or t in me.open:
                        me.open.add(t)      # conflicting records: left open
                    else:
                        me.rec[t] = e
                me.open |= leaf.open
            for t in me.open:
                for leaf in me.leaves():
                    leaf.rec.pop(t, None)
        elif o == "eval":
            tags = me.alltags()
            want = sorted(t for t in tags if locked.get((ver, t)))
            if (r is not None) != bool(want) or (want and sorted(set(r)) != want):
                return fail("step %d: evaluation reports the locked tags %s, expected %s" % (n, r, want or None))
            if want:
                labels.add("locked")
                for leaf in me.leaves():    # what was recorded now is unspecified
                    leaf.open |= leaf.tags | set(leaf.rec)
                    leaf.rec = {}
            else:
                make(v, tags)
                for leaf in me.leaves():
                    for t in leaf.tags:
                        leaf.rec[t] = cur[(ver, t)]
                    leaf.open -= leaf.tags
                    leaf.rec = {t: e for t, e in leaf.rec.items() if t in leaf.tags}
        elif o == "valid":
            sure, maybe = recorded(me, v)
            got = set(r or ())
            if not (sure <= got <= sure | maybe):
                return fail("step %d: reported invalid tags %s, expected %s" % (n, r, sorted(sure) or None))
            if r == []:
                return fail("step %d: invalid without a reason" % n)
            if sure:
                labels.add("invalid")
        elif o in ("set", "gosc"):
            tags = me.alltags()
            used[op["i"]] = used.get(op["i"], 0) + 1
            if o == "gosc":
                live = ents.get((ver, op["k"]))
                alive = live is not None and all(cur.get((ver, t)) == e for t, e in live[1].items())
                if r != (live[0] if alive else op["val"]):
                    return fail("step %d: compute-if-missing returned %r" % (n, r))
                if alive:
                    continue
            if not any(locked.get((ver, t)) for t in tags):
                make(v, tags)
                ents[(ver, op["k"])] = (op["val"], {t: cur[(ver, t)] for t in tags})
        elif o == "get":
            live = ents.get((ver, op["k"]))
            alive = live is not None and all(cur.get((ver, t)) == e for t, e in live[1].items())
            if r != (live[0] if alive else None):
                return fail("step %d: get of %s returned %r, expected %r" % (n, op["k"], r, live[0] if alive else None))
        elif o == "inv":
            used[op["i"]] = used.get(op["i"], 0) + 1
            invalidate(v, me.alltags())
        elif o == "txinv":
            used[op["i"]] = used.get(op["i"], 0) + 1
            invalidate(v, me.alltags())
            if op.get("again") is not None:
                invalidate(v, objs[op["again"]].alltags())
            locked.clear()          # the pause lets all locks vanish
        elif o == "lock":
            for t in op["tags"]:
                locked[(ver, t)] = True
                held.add((ver, t))
            invalidate(v, op["tags"])
        elif o == "unlock":
            # the end of the transaction invalidates its tags again
            for key in held:
                cur[key] = None
            locked.clear()
            held.clear()
        elif o == "probe":
            msg = check_probe(op["i"], me, r, recorded(me, None))
            if msg:
                return fail("step %d: %s" % (n, msg))
    for i, r in enumerate(out["final"]):
        msg = check_probe(i, objs[i], r, recorded(objs[i], None))
        if msg:
            return fail("at the end: %s" % msg)
    if any(c > 1 for c in used.values()):
        labels.add("reused")
    return None, {"labels": sorted(labels), "nontrivial": "combined" in labels and bool(labels & {"invalid", "locked", "reused"})}


def check_probe(i, o, r, rec):
    want = sorted(o.alltags()) or None
    if r[0] == "x":
        return "object %d is broken: %s" % (i, r[1])
    if r[0] is not None:
        return "object %d is invalid right after its evaluation: %s" % (i, r[0])
    if r[1] != want:
        return "object %d has the tags %s, expected %s" % (i, r[1], want)
    sure, maybe = rec
    if not (sure <= set(r[2] or ()) <= sure | maybe):
        return "object %d reports the invalid tags %s, expected %s" % (i, r[2], sorted(sure) or None)
    return None
