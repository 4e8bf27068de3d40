"""JSON encoding of arbitrary Python values (used by both interpreters)."""


def enc(x):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return x if abs(x) < 2 ** 53 else {"$": "int", "v": str(x)}
    if isinstance(x, float):
        return {"$": "float", "v": repr(x)}
    if isinstance(x, bytes):
        return {"$": "bytes", "v": x.decode("latin-1")}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, tuple):
        return {"$": "tuple", "v": [enc(i) for i in x]}
    if isinstance(x, (set, frozenset)):
        name = "set" if isinstance(x, set) else "fset"
        return {"$": name, "v": sorted((enc(i) for i in x), key=ascii)}
    if type(x) is dict:
        return {"$": "dict", "v": sorted(([enc(k), enc(v)] for k, v in x.items()), key=ascii)}
    return {"$": "obj", "v": "%s: %.200r" % (type(x).__name__, x)}


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        t, v = x["$"], x["v"]
        if t == "int":
            return int(v)
        if t == "float":
            return float(v)
        if t == "bytes":
            return v.encode("latin-1")
        if t == "tuple":
            return tuple(dec(i) for i in v)
        if t == "set":
            return set(dec(i) for i in v)
        if t == "fset":
            return frozenset(dec(i) for i in v)
        if t == "dict":
            return {dec(k): dec(w) for k, w in v}
        raise ValueError(t)
    return x
