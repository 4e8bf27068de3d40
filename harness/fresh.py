"""Oracle of freshness for the `sched` engine (used by both interpreters).

Every cached value carries the versions of the database cells it was computed
from; the cell of a tag is what the tag stands for.
"""


def check(iso, events):
    """(message or None, labels) of one run."""
    labels = {}

    def lab(name, n=1):
        labels[name] = labels.get(name, 0) + n

    order = {}          # cell -> versions in the order of their commits
    owner = {}          # version id -> tx number
    txs = {}            # tx number -> its fate
    sets = []
    for e in events:
        if e["e"] == "write":
            owner[e["v"]] = e["tx"]
        elif e["e"] == "commit":
            for c, v in e["cells"]:
                order.setdefault(c, [0]).append(v)
            txs.setdefault(e["tx"], {})["commit"] = e["q"]
        elif e["e"] == "end":
            t = txs.setdefault(e["tx"], {})
            t.update(q0=e["q0"], q=e["q"], tags=e["tags"], rolled=e["rolled"], err=e.get("x"))
            lab("tx_end")
            if e["tags"]:
                lab("writer_end")
        elif e["e"] == "x":
            return "%s raised %s" % (e["what"], e["x"]), labels
        elif e["e"] == "set":
            sets.append(e)
    ended = [t for t in txs.values() if "q" in t]
    for e in sets:
        # what the value misses of transactions which ended before the store did, or will miss when the open ones end
        for c, v in e["val"]["cells"]:
            vs = order.get(c, [0])
            i = vs.index(v) if v in vs else None
            if i is None:
                lab("dirty_store")
            elif any(txs.get(owner[w], {}).get("commit", 1e9) < e["q"] for w in vs[i + 1:]):
                lab("stale_store")
                break
    if iso in ("REPEATABLE READ", "SERIALIZABLE"):
        for e in events:
            if e["e"] != "hit":
                continue
            lab("hit")
            for c, v in e["val"]["cells"]:
                vs = order.get(c, [0])
                if v not in vs:                      # never committed
                    t = txs.get(owner.get(v))
                    if t is not None and t.get("q", 1e9) < e["q"]:
                        return "%s read from the cache contains the change %r of the rolled back transaction %s, which had ended" % (
                            e["k"], [c, v], owner[v]), labels
                    lab("hit_dirty")
                    continue
                i = vs.index(v)
                for w in vs[i + 1:]:
                    t = txs.get(owner[w], {})
                    if t.get("q", 1e9) < e["q"]:
                        return "%s read from the cache (at step %s) has version %s of %s although transaction %s had committed version %s and ended (at step %s)" % (
                            e["k"], e["q"], v, c, owner[w], w, t["q"]), labels
                if i == len(vs) - 1:
                    lab("hit_fresh")
    else:
        # READ COMMITTED: stores completed before the end began
        done = {}
        for e in sets:
            done[e["val"]["id"]] = e
        for e in events:
            if e["e"] != "hit":
                continue
            lab("hit")
            s = done.get(e["val"]["id"])
            if s is None:
                continue
            deps = set(c for c, v in e["val"]["cells"])
            for n, t in txs.items():
                if "q" in t and s["q"] < t["q0"] and t["q"] < e["q"] and deps & set(t["tags"]):
                    return "%s read from the cache was stored (completed at step %s) before transaction %s began to end (%s), which invalidated %s" % (
                        e["k"], s["q"], n, t["q0"], sorted(deps & set(t["tags"]))), labels
        for e in sets:
            if any(e["q"] < t["q0"] and e["q0"] > 0 and set(c for c, v in e["val"]["cells"]) & set(t["tags"]) for t in ended):
                lab("stale_store")
    return None, labels
