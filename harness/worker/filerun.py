"""Engine for the file backend: the backend of the library in one directory, the one of the framework in another."""
import builtins
import errno
import io
import os
import pickle
import random
import shutil
import tempfile
import threading
import warnings

import boot
from boot import clock, exc_info
from codec import enc, dec
from django.core.cache.backends import filebased
from django_cache_dependencies.backends import FileBasedCache

REAL = {n: getattr(m, n) for m, names in ((os, ("makedirs", "mkdir", "rename", "replace", "link", "fdopen", "open", "write", "close", "fsync",
                                                "remove", "unlink")),
                                          (io, ()),) for n in names}
REAL_OPEN = io.open
REAL_MKSTEMP = tempfile.mkstemp
REAL_RANDOM = random.random


class Crash(BaseException):
    """The process dies."""


class Unpicklable(object):
    def __reduce__(self):
        raise TypeError("can not be pickled")


class Points(object):
    """Counts the file-system calls of an operation; fails, kills or interrupts it at one of them."""

    def __init__(self, root):
        self.root = root
        self.on = False
        self.thread = None

    def start(self, fault, between):
        self.n = 0
        self.log = []
        self.fault = fault or {}
        self.between = between
        self.fired = None
        self.dead = False
        self.thread = threading.get_ident()
        self.on = True

    def stop(self):
        self.on = False

    def hit(self, name):
        if not self.on or threading.get_ident() != self.thread:
            return
        if self.dead:
            raise Crash()
        self.n += 1
        self.log.append(name)
        if self.between:
            self.on = False
            try:
                self.between(self.n)
            finally:
                self.on = True
        if self.n == self.fault.get("at") and name not in self.fault.get("not", ()):
            self.fired = name
            if self.fault["kind"] == "crash":
                self.dead = True
                raise Crash()
            raise {"os": OSError, "io": IOError, "perm": PermissionError}[self.fault["kind"]](
                errno.EACCES if self.fault["kind"] == "perm" else errno.ENOSPC, "injected")


points = Points(None)


class FileProxy(object):
    """A file opened for writing; a failing write stores the first half."""

    def __init__(self, f):
        self.__dict__["f"] = f

    def write(self, data):
        try:
            points.hit("write")
        except BaseException:
            self.f.write(bytes(data)[:len(data) // 2])
            self.f.flush()
            raise
        r = self.f.write(data)
        self.f.flush()
        return r

    def close(self):
        if not self.f.closed:
            try:
                points.hit("close")
            finally:
                self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, name):
        return getattr(self.f, name)


def wrap(name, real):
    def call(*a, **kw):
        if points.on and threading.get_ident() == points.thread:
            points.hit(name)
        return real(*a, **kw)
    return call


def opener(name, real):
    def call(file, mode="r", *a, **kw):
        if points.on and threading.get_ident() == points.thread and any(c in mode for c in "wax+"):
            if not isinstance(file, int):
                points.hit("open")
            elif name == "fdopen":
                try:
                    points.hit("fdopen")
                except BaseException:
                    REAL["close"](file)
                    raise
            f = real(file, mode, *a, **kw)
            try:
                points.hit("opened")
            except BaseException:
                f.close()
                raise
            return FileProxy(f)
        return real(file, mode, *a, **kw)
    return call


def patch():
    for n in ("makedirs", "mkdir", "rename", "replace", "link", "remove", "unlink", "fsync"):
        setattr(os, n, wrap(n, REAL[n]))
    tempfile.mkstemp = wrap("mkstemp", REAL_MKSTEMP)
    os.fdopen = opener("fdopen", REAL["fdopen"])
    io.open = builtins.open = opener("open", REAL_OPEN)


def unpatch():
    for n in ("makedirs", "mkdir", "rename", "replace", "link", "remove", "unlink", "fsync", "fdopen"):
        setattr(os, n, REAL[n])
    tempfile.mkstemp = REAL_MKSTEMP
    io.open = builtins.open = REAL_OPEN


COLL = {"list": list, "tuple": tuple, "set": set, "iter": iter}


def call(c, op, box):
    kw = {k: op[k] for k in ("version", "timeout", "delta") if k in op}
    o = op["o"]
    val = lambda: Unpicklable() if op.get("bad") else dec(op["value"])  # noqa: E731
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if o in ("set", "add"):
                if op.get("pos"):
                    args = [kw.pop(k) for k in ("timeout", "version") if k in kw and (k == "timeout" or "timeout" in op)]
                    r = getattr(c, o)(op["key"], val(), *args, **kw)
                else:
                    r = getattr(c, o)(op["key"], val(), **kw)
            elif o == "get_or_set":
                r = c.get_or_set(op["key"], (lambda: val()) if op.get("fn") else val(), **kw)
            elif o in ("get", "delete", "has_key", "incr", "decr", "incr_version", "decr_version"):
                r = getattr(c, o)(op["key"], **kw)
            elif o == "in":
                r = op["key"] in c
            elif o in ("get_many", "delete_many"):
                r = getattr(c, o)(COLL[op["coll"]](op["keys"]), **kw)
            elif o == "set_many":
                r = c.set_many({k: dec(v) for k, v in op["data"]}, **kw)
            else:
                r = getattr(c, o)()
        box["res"] = enc(r)
    except Crash:
        box["crash"] = 1
    except Exception as e:
        box["error"] = exc_info(e)


def run(case):
    clock.reset()
    root = tempfile.mkdtemp(prefix="verif-file-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        return run_in(case, root)
    finally:
        unpatch()
        random.random = REAL_RANDOM
        shutil.rmtree(root, ignore_errors=True)


def files(d):
    return sorted(os.path.join(p, f)[len(d):] for p, _, names in os.walk(d) for f in names)


def snapshot(d):
    res = {}
    for f in files(d):
        with REAL_OPEN(d + f, "rb") as h:
            res[f] = h.read()
    return res


def restore(d, f, data):
    if data is None:
        if os.path.exists(d + f):
            os.remove(d + f)
        return
    if not os.path.isdir(d):
        os.makedirs(d)
    with REAL_OPEN(d + f, "wb") as h:
        h.write(data)


def run_in(case, root):
    dirs = [os.path.join(root, "sub", n) for n in ("lib", "ref")]
    params = []
    for c in case["caches"]:
        p = {k: c[n] for k, n in (("KEY_PREFIX", "prefix"), ("VERSION", "version")) if c[n] is not None}
        if "default" in case:
            p["TIMEOUT"] = case["default"]
        params.append(p)
    size = {"MAX_ENTRIES": case.get("max", 10000), "CULL_FREQUENCY": case.get("freq", 3)}
    keys, versions = case["keys"], case["versions"]

    def make():
        return ([FileBasedCache(dirs[0], dict(p, OPTIONS=dict(size))) for p in params],
                [filebased.FileBasedCache(dirs[1], dict(p, OPTIONS={"MAX_ENTRIES": 10 ** 6})) for p in params],
                [FileBasedCache(dirs[0], dict(p, OPTIONS={"MAX_ENTRIES": 10 ** 6})) for p in params])

    def cells():
        for i in range(len(params)):
            for k in keys:
                for v in versions:
                    yield i, k, v

    def state(caches):
        res = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for i, k, v in cells():
                try:
                    x = caches[i].get(k, version=v)
                except Exception as e:
                    res.append([i, k, v, {"raises": exc_info(e)}])
                else:
                    if x is not None:
                        res.append([i, k, v, enc(x)])
        return res

    lib, ref, other = make()
    out = []
    for op in case["ops"]:
        r = {}
        out.append(r)
        o = op["o"]
        special = op.get("fault") or op.get("nested") or op.get("cull")
        if o == "tick":
            clock.advance(op["dt"])
        elif o == "rmdir":
            for d in dirs:
                shutil.rmtree(os.path.dirname(d) if op.get("deep") else d, ignore_errors=True)
        elif o == "restart":
            lib, ref, other = make()
        elif o == "fill":
            for i in range(op["n"]):
                lib[0].set("fill%d" % i, i)
                settle()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                vals = [lib[0].get("fill%d" % i) for i in range(op["n"])]
            r["filled"] = len(files(dirs[0]))
            r["wrong"] = [i for i, x in enumerate(vals) if x is not None and x != i]
            for c in lib + ref:
                c.clear()
        else:
            r["before"] = state(lib)
            state(ref)
            kept = snapshot(dirs[1])
            nested = op.get("nested")
            seen = []

            def between(n):
                if op.get("watch"):
                    s = state(other)
                    if not seen or seen[-1] != s:
                        seen.append(s)
                if nested and nested["at"] == n:
                    r["nested"] = {}
                    if nested["op"]["o"] == "rmdir":
                        shutil.rmtree(dirs[0], ignore_errors=True)
                    else:
                        call(other[nested["op"]["c"]], nested["op"], r["nested"])
            random.random = lambda: 0.95 if op.get("cull") else 0.05
            patch()
            points.start(op.get("fault"), between if nested or op.get("watch") else None)
            try:
                call(lib[op["c"]], op, r.setdefault("lib", {}))
            finally:
                points.stop()
                unpatch()
                settle()
                random.random = REAL_RANDOM
            r["points"] = points.log
            r["fired"] = points.fired
            r["seen"] = seen
            call(ref[op["c"]], op, r.setdefault("ref", {}))
            if "nested" in r:
                def both(a, b):
                    for f in set(files(dirs[1])) | set(kept):
                        restore(dirs[1], f, kept.get(f))
                    for x in (a, b):
                        if x["o"] == "rmdir":
                            shutil.rmtree(dirs[1], ignore_errors=True)
                        else:
                            call(ref[x["c"]], x, {})
                    return state(ref)
                r["orders"] = [both(op, nested["op"]), both(nested["op"], op)]
        r["state"] = state(lib)
        r["want"] = state(ref)
        if special:
            # what the fault leaves open is taken over from the library
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for i, k, v in cells():
                    x = enc(lib[i].get(k, version=v))
                    if enc(ref[i].get(k, version=v)) != x:
                        f = ref[i]._key_to_file(k, v)[len(dirs[1]):]
                        restore(dirs[1], f, None if x is None else kept.get(f))
        r["files"] = len(files(dirs[0]))
        r["want_files"] = len(files(dirs[1]))
    return {"out": out}


def settle():
    for t in threading.enumerate():
        if t is not threading.current_thread() and not t.daemon:
            t.join(10)
