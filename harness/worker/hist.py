"""Engine for histories of cache operations by several sessions (threads).

Every operation of the case is executed on the real code; the answer is the
list of events: the operation itself plus what it returned or raised.
"""
import threading

import boot
from boot import clock, hook, BackendError, BackendExit, UserError, UserExit, exc_info
from codec import enc, dec
from sessions import session
import vbackends

import django_cache_dependencies as dcd
import django_cache_dependencies.decorators     # noqa: binds the module-level collection before any case replaces it
import django_cache_dependencies.middleware     # noqa
from django.conf import settings
from django.core import signals
from django.core.handlers.base import BaseHandler
from django.http import HttpResponse
from django.test import RequestFactory
from cache_dependencies import interfaces
import names
import vdeps
import vurls

MISSING = object()
DEFAULT_COLLECTION = dcd.caches


class Plain(object):
    """CacheTagging without Django: one backend, per-session managers."""

    def __init__(self, iso, delay, deco, raw, backend=vbackends.PlainCache, names_=None):
        self.names_ = names_ or (lambda: names.NEW)
        self.backend = backend()
        self.tl = threading.local()
        self.iso, self.delay, self.deco, self.raw = iso, delay, deco, raw

    def __getitem__(self, alias):
        if not hasattr(self.tl, "cache"):
            def accessor():
                return self.backend if self.raw else self["default"].cache
            n = self.names_()
            lock = n.locks.DependencyLock.make(self.iso, accessor, self.delay)
            rel = n.relations.RelationManager()
            tx = n.transaction.TransactionManager(lock)
            if self.deco:
                rel = n.relations.ThreadSafeRelationManagerDecorator(rel)
                tx = n.transaction.ThreadSafeTransactionManagerDecorator(tx)
            self.tl.cache = n.tagging.CacheTagging(self.backend, rel, tx)
        return self.tl.cache

    own = __getitem__

    def keys(self):
        return sorted(self.backend.data)

    def drop(self, raw):
        self.backend.data.pop(raw, None)


class Global(object):
    """The module-level collection, as the middleware and the deprecated decorators use it."""
    name = "main"

    def __init__(self, second=None):
        settings.CACHE_TAGGING = {"default": {}}
        if second:
            settings.CACHE_TAGGING["second"] = dict(second)
        self.coll = DEFAULT_COLLECTION

    def __getitem__(self, alias):
        return self.coll[alias]

    own = __getitem__
    keys = lambda self: vbackends.locmem_keys(self.name)

    def drop(self, raw):
        vbackends.locmem_drop(self.name, raw)


def handle(view, op):
    vurls.CURRENT.view = view
    mw = (names.old() if op.get("nm") else names.NEW).path + ".middleware.TransactionMiddleware"
    path = "/view/"
    if op.get("short"):           # an inner middleware answers instead of the view
        path = "/nowhere/"
    if op.get("old"):
        settings.MIDDLEWARE, settings.MIDDLEWARE_CLASSES = None, [mw]
    else:
        settings.MIDDLEWARE, settings.MIDDLEWARE_CLASSES = [mw], []
    h = BaseHandler()
    h.load_middleware()
    request = RequestFactory().get(path)
    response = h.get_response(request)
    status = response.status_code
    response.close()              # sends request_finished
    return status


class Django(object):
    def __init__(self, iso, delay, proxy, cfg):
        tagging_cfg = {"default": {"ISOLATION_LEVEL": iso, "DELAY": delay}}
        if cfg.get("defaults"):       # settings left out where they equal the documented defaults
            d = tagging_cfg["default"]
            if iso == "READ COMMITTED":
                del d["ISOLATION_LEVEL"]
            if not delay and cfg["defaults"] == 2:
                d["DELAY"] = None
            elif not delay:
                del d["DELAY"]
        if cfg.get("second"):
            tagging_cfg["second"] = dict(cfg["second"])
        self.alias = "default"
        if cfg.get("via"):            # an alias of the library's own, with options of its own, over the framework's one
            self.alias = "tagged"
            tagging_cfg = dict(tagging_cfg, tagged=dict(tagging_cfg["default"], BACKEND="default"),
                               default={"ISOLATION_LEVEL": "READ UNCOMMITTED", "DELAY": 7})
        settings.CACHE_TAGGING = tagging_cfg
        self.coll = dcd.CacheCollection()
        self.proxy = proxy
        if proxy:
            dcd.caches = self.coll
        self.name = "main"

    def __getitem__(self, alias):
        if self.proxy and alias == "default":
            return dcd.cache
        return self.own(alias)

    def own(self, alias):
        """The cache object of this thread."""
        return self.coll[self.alias if alias == "default" else alias]

    def keys(self):
        return vbackends.locmem_keys(self.name)

    def drop(self, raw):
        vbackends.locmem_drop(self.name, raw)


def evict(sys, op, ev):
    """Losses of the backend. Names of user keys begin with u or are numbers; everything else is internal."""
    keys = sys.keys()
    default = vbackends.DEFAULT_VERSION[0]
    name = lambda k: k.split(":", 2)[2]
    user = [k for k in keys if name(k)[:1] == "u" or name(k).isdigit()]
    internal = [k for k in keys if k not in set(user)]
    what = op["what"]
    if what == "all":
        victims = keys
    elif what == "internal":
        victims = internal
    elif what == "one_internal":
        victims = [internal[op["i"] % len(internal)]] if internal else []
    elif what == "some_internal":
        victims = [k for i, k in enumerate(internal) if op["i"] >> (i % 12) & 1]
    elif what == "user":
        want = ":%s:%s" % (default if op["v"] is None else op["v"], op["k"])
        victims = [want] if want in user else []
    elif what == "tag":
        victims = []
        try:
            from cache_dependencies.utils import make_tag_key
            want = ":%s:%s" % (default if op["v"] is None else op["v"], make_tag_key(op["tag"]))
            victims = [k for k in keys if k == want]
        except ImportError:
            pass
        ev["found"] = len(victims)
    for k in victims:
        sys.drop(k)
    ev["n"] = len(victims)
    ev["user"] = [[int(k.split(":")[1]), int(name(k)) if name(k).isdigit() else name(k)] for k in victims if k in set(user)]
    ev["internal"] = sum(1 for k in victims if k not in set(user))


class Case(object):
    def __init__(self, case):
        self.case = case
        cfg = case["cfg"]
        self.used = set()
        self.events = []
        self.current = None       # the session which acts
        if cfg.get("names"):
            try:
                names.old()
            except Exception as e:
                self.events.append({"o": "broken", "x": exc_info(e), "t": 0})
                return
        iso, delay = cfg.get("iso", "READ COMMITTED"), cfg.get("delay", 0)
        w = cfg.get("wiring", "django")
        vbackends.locmem_reset()
        vbackends.DEFAULT_VERSION[0] = cfg.get("dver", 1)
        clock.reset()
        hook.reset()
        hook.strict = True
        if w == "global":
            self.sys = Global(cfg.get("second"))
        elif w == "plain":
            self.sys = Plain(iso, delay, cfg.get("deco", True), cfg.get("raw", False),
                             cfg.get("backend") or (vbackends.RefCache if cfg.get("ref") else vbackends.PlainCache), self.session_names)
        else:
            self.sys = Django(iso, delay, w == "proxy", cfg)
        # decorated in this (the importing) thread, called in the sessions' threads
        self.trampoline = dcd.cache.transaction(lambda fn: fn()) if w in ("proxy", "global") else None
        self.stacks = {}          # open computations per session: [key, version, alias, tracked]
        self.deps = {}            # reusable dependency objects
        self.db = {}

    def session_names(self):
        """Under which names the cache of the acting session is built."""
        how = self.case["cfg"].get("names")
        return names.old() if how == "old" or (how == "mix" and (self.current or 0) % 2) else names.NEW

    @staticmethod
    def op_names(op):
        return names.old() if op.get("nm") else names.NEW

    # ------------------------------------------------------------------ driver
    def run(self):
        if self.events:
            return self.events
        try:
            for op in self.case["ops"]:
                s = op.get("s")
                if s is None:
                    ev = self.control(op)
                else:
                    self.used.add(s)
                    self.current = s
                    ev = session(s).call(lambda: self.top(op, s))
                self.events.append(ev)
        finally:
            hook.reset()
            for s in sorted(self.used):
                session(s).call(self.cleanup)
            clock.reset()
            dcd.caches = DEFAULT_COLLECTION
            vbackends.DEFAULT_VERSION[0] = 1
        return self.events

    def cleanup(self):
        for alias in ("default",) + (("second",) if self.case["cfg"].get("second") else ()):
            try:
                c = self.sys[alias]
                c.ignore_descendants = False
                c.close()
            except Exception:
                pass

    def control(self, op):
        o = op["o"]
        ev = dict(op)
        if o == "adv":
            log = []
            clock.advance(op["dt"], log)
            ev["timers"] = [[t - boot.EPOCH, err] for _, t, err in log]
        elif o == "evict":
            evict(self.sys, op, ev)
        elif o == "fault":
            hook.fault = {"n": op["n"], "mode": op["mode"], "exit": op.get("exit")}
        elif o == "nofault":
            hook.fault = None
        else:
            raise ValueError(o)
        ev["t"] = clock.now - boot.EPOCH
        return ev

    # ------------------------------------------------------------- operations
    def top(self, op, s):
        ev = {}
        n0 = hook.fired
        try:
            self.step(op, s, ev)
        except (UserError, UserExit):
            pass
        if hook.fired != n0:
            ev["fault"] = True
        return ev

    def body(self, ops, s, events):
        """Operations nested in a callback or in a with-block."""
        depth = len(self.stacks.setdefault(s, []))
        try:
            for op in ops:
                ev = {}
                events.append(ev)
                self.step(op, s, ev)
        except (UserError, UserExit, BackendError, BackendExit):
            self.unwind(s, depth, events)
            raise

    def unwind(self, s, depth, events):
        st = self.stacks.setdefault(s, [])
        while len(st) > depth:            # documented: abort what is not going to be stored
            k, v, alias, tracked = st.pop()
            self.sys[alias].abort(k)
            events.append({"o": "close", "s": s, "k": k, "v": v, "a": alias, "how": "abort", "auto": 1,
                           "t": clock.now - boot.EPOCH})

    def api(self, ev, fn):
        try:
            return fn()
        except (UserError, UserExit) as e:
            ev["x"] = exc_info(e)
            raise
        except (Exception, BackendExit) as e:
            ev["x"] = exc_info(e)
            if isinstance(e, (BackendError, BackendExit)):
                ev["xb"] = True
            return MISSING

    def step(self, op, s, ev):
        for k, v in op.items():
            if k not in ("body", "then"):
                ev[k] = v
        ev["s"] = s
        c = self.sys[op.get("a", "default")]
        if op.get("nm") and self.case["cfg"].get("wiring") == "global":
            old = names.old().dcd
            a = op.get("a", "default")
            c = [lambda: old.caches[a], lambda: old.get_cache(a), lambda: old.cache if a == "default" else old.caches[a]][op.get("cf", 0) % 3]()
        try:
            getattr(self, "op_" + op["o"])(op, s, ev, c)
            if self.case["cfg"].get("ids") and op["o"] not in ("end", "request"):
                self.op_same(op, s, ev, c)
        finally:
            ev["t"] = clock.now - boot.EPOCH

    def found(self, ev, r):
        if r is MISSING:
            return
        ev["hit"] = r is not self
        if ev["hit"]:
            ev["r"] = enc(r)

    def in_stack(self, s, k):
        return any(e[0] == k for e in self.stacks.get(s, ()))

    def op_get(self, op, s, ev, c):
        k, v = op["k"], op.get("v")
        if self.in_stack(s, k) and not op.get("anyway"):
            ev["skip"] = 1
            return
        form = op.get("cf", 0)
        if op.get("mode", "u") == "u":
            self.found(ev, self.api(ev, [
                lambda: c.get(k, self, v, True),
                lambda: c.get(k, default=self, version=v, abort=True)][form % 2]))
        else:
            if v is None and form % 3 == 1:
                fn = lambda: c.get(k, self)
            else:
                fn = [lambda: c.get(k, self, v), lambda: c.get(k, default=self, version=v),
                      lambda: c.get(k, default=self, version=v, abort=False)][form % 3]
            self.found(ev, self.api(ev, fn))
            if ev.get("hit") is False and not c.ignore_descendants:
                c.abort(k)

    def op_many(self, op, s, ev, c):
        v = op.get("v")
        ks = [k for k in op["ks"] if not self.in_stack(s, k)]
        ev["ks"] = ks
        it = op.get("it", "list")
        arg = {"list": list, "tuple": tuple, "set": set, "fset": frozenset, "iter": iter,
               "gen": lambda x: (i for i in x), "keys": lambda x: dict.fromkeys(x).keys(),
               "dict": dict.fromkeys}[it](ks)
        if op.get("mode", "u") == "u":
            r = self.api(ev, [lambda: c.get_many(arg, v, True),
                              lambda: c.get_many(arg, version=v, abort=True)][op.get("cf", 0) % 2])
        elif v is None and op.get("cf", 0) % 3 == 2:
            r = self.api(ev, lambda: c.get_many(arg))
        else:
            r = self.api(ev, [lambda: c.get_many(arg, v), lambda: c.get_many(arg, version=v)][op.get("cf", 0) % 2])
        if r is not MISSING:
            ev["r"] = sorted([k, enc(x)] for k, x in r.items())
            if op.get("cmp"):
                single = []
                for k in sorted(set(ks)):
                    x = self.api(ev, lambda: c.get(k, self, v, True))
                    if x is not self:
                        single.append([k, enc(x)])
                ev["single"] = single

    def tags_arg(self, op, s):
        tags, tf = op.get("tags", []), op.get("tf", "tuple")
        dependencies = self.op_names(op).dependencies
        if tf == "reuse":        # the same dependency object for every use of these tags
            key = (s if op.get("own") else None, tuple(tags))
            if key not in self.deps:
                self.deps[key] = dependencies.TagsDependency(*tags)
            return self.deps[key]
        return {
            "tuple": tuple, "list": list, "set": set, "fset": frozenset,
            "own": lambda t: vdeps.Custom(*t), "own2": lambda t: vdeps.Merging(*t), "own3": lambda t: vdeps.Querying(*t),
            "owns": lambda t: dependencies.CompositeDependency(*[[vdeps.Custom, vdeps.Merging, vdeps.Querying, dependencies.TagsDependency][
                i % 4](x) for i, x in enumerate(t)]),
            "dep": lambda t: dependencies.TagsDependency(*t) if len(t) != 1 else dependencies.TagsDependency(list(t)),
            "comp": lambda t: dependencies.CompositeDependency(*[dependencies.TagsDependency(x) for x in t]),
            "comp2": lambda t: dependencies.CompositeDependency(
                dependencies.DummyDependency(),
                dependencies.CompositeDependency(dependencies.TagsDependency(tuple(t)))),
        }[tf](tags)

    def dep_arg(self, op, arg, cf):
        """For the lower level, which takes dependencies only."""
        dependencies = self.op_names(op).dependencies
        if isinstance(arg, interfaces.IDependency):
            return arg
        if arg:
            return dependencies.TagsDependency(arg) if cf % 2 else dependencies.TagsDependency(*arg)
        return dependencies.DummyDependency() if cf % 2 else None

    def wset(self, w, cf, k, val, dep, to, v):
        if cf % 3 == 0:
            return w.set(k, val, dep, to, v)
        if cf % 3 == 1:
            return w.set(k, val, dependency=dep, timeout=to, version=v)
        if v is None and to is None:
            return w.set(k, val) if dep is None else w.set(k, val, dep)
        return w.set(k, val, dep, timeout=to, version=v)

    def store(self, c, op, s, k, val, v):
        tf, to, cf = op.get("tf", "tuple"), op.get("to"), op.get("cf", 0)
        if tf == "native":       # as the underlying API: set(key, value, timeout, version)
            if cf % 3 == 0 and v is None:
                return c.set(k, val, to) if to is not None else c.set(k, val)
            if cf % 3 == 1 and to is not None:
                return c.set(k, val, to, v)
            return c.set(k, val, timeout=to, version=v)
        arg = self.tags_arg(op, s)
        if op.get("api") == "w":
            return self.wset(c.cache, cf, k, val, self.dep_arg(op, arg, cf), to, v)
        if cf % 3 == 0:
            return c.set(k, val, arg, to, v)
        if cf % 3 == 1:
            return c.set(k, val, tags=arg, timeout=to, version=v)
        if v is None and to is None:
            return c.set(k, val, arg)
        if v is None:
            return c.set(k, val, arg, to)
        return c.set(k, val, arg, timeout=to, version=v)

    def op_set(self, op, s, ev, c):
        if self.in_stack(s, op["k"]):
            ev["skip"] = 1
            return
        self.api(ev, lambda: self.store(c, op, s, op["k"], dec(op["val"]), op.get("v")))

    def op_open(self, op, s, ev, c):
        """Tracked read; on a miss the computation of the entry begins."""
        k, v = op["k"], op.get("v")
        if self.in_stack(s, k):
            ev["skip"] = 1
            return
        tracked = op.get("mode", "t") == "t"
        if tracked:
            self.found(ev, self.api(ev, lambda: c.get(k, self, v)))
        else:
            self.found(ev, self.api(ev, lambda: c.get(k, self, v, abort=True)))
        if ev.get("hit") is False:
            tracked = tracked and not c.ignore_descendants
            ev["tracked"] = tracked
            self.stacks.setdefault(s, []).append([k, v, op.get("a", "default"), tracked])

    def op_close(self, op, s, ev, c):
        """Ends the innermost open computation of the session: stores or aborts."""
        st = self.stacks.setdefault(s, [])
        free = 0                # not those of running callbacks
        while free < len(st) and len(st[-1 - free]) == 4:
            free += 1
        if not free:
            ev["skip"] = 1
            return
        i = min(op.get("i", 0), free - 1)
        k, v, alias, tracked = st.pop(-1 - i)
        ev["k"], ev["v"], ev["a"] = k, v, alias
        c = self.sys[alias]
        if op.get("how", "set") == "abort":
            self.api(ev, lambda: c.abort(k))
        else:
            self.api(ev, lambda: self.store(c, op, s, k, dec(op["val"]), v))

    def op_gosc(self, op, s, ev, c):
        k, v = op["k"], op.get("v")
        if self.in_stack(s, k):
            ev["skip"] = 1
            return
        ev["calls"] = 0
        ev["body"] = []
        a, kw = [dec(i) for i in op.get("args", [])], {x: dec(y) for x, y in op.get("kw", {}).items()}

        def callback(*args, **kwargs):
            ev["calls"] += 1
            if ev["calls"] > 1:
                return "called again"
            ev["args_ok"] = list(args) == a and kwargs == kw
            # the stack entry makes nested operations avoid this key
            self.stacks.setdefault(s, []).append([k, v, op.get("a", "default"), True, "callback"])
            try:
                depth = len(self.stacks[s])
                self.body(op.get("body", []), s, ev["body"])
                self.unwind(s, depth, ev["body"])
                if op.get("raise") == "exit":
                    raise UserExit("exit")
                if op.get("raise"):
                    raise UserError("callback")
                return dec(op["val"])
            finally:
                self.stacks[s].pop()

        tags, to, cf = self.tags_arg(op, s), op.get("to"), op.get("cf", 0)
        args = tuple(a) if cf % 2 else list(a)

        def manual():
            """The same by hand, as documented: get, compute, set or abort."""
            x = c.get(k, self, v)
            if x is self:
                try:
                    x = callback(*a, **kw)
                except BaseException:
                    c.abort(k)
                    raise
                self.store(c, op, s, k, x, v)
            return x

        def call():
            if op.get("manual"):
                return manual()
            if op.get("api") == "w":
                dep = self.dep_arg(op, tags, 1)
                if not a and not kw and cf % 4 == 2:
                    if v is None and to is None:
                        return c.cache.get_or_set_callback(k, callback, dep)
                    return c.cache.get_or_set_callback(k, callback, dep, to, v)
                if cf % 4 == 1:
                    return c.cache.get_or_set_callback(k, callback, dependency=dep, timeout=to, version=v, args=args, kwargs=kw)
                return c.cache.get_or_set_callback(k, callback, dep, to, v, args, kw)
            if not a and not kw and cf % 4 == 2:
                if v is None and to is None:
                    return c.get_or_set_callback(k, callback, tags)
                return c.get_or_set_callback(k, callback, tags, to, v)
            if cf % 4 == 1:
                return c.get_or_set_callback(k, callback, tags=tags, timeout=to, version=v, args=args, kwargs=kw)
            return c.get_or_set_callback(k, callback, tags, to, v, args, kw)
        try:
            r = self.api(ev, call)
            if r is not MISSING:
                ev["r"] = enc(r)
        except (UserError, UserExit):
            if not op.get("catch"):
                raise

    def op_raise(self, op, s, ev, c):
        ev["x"] = ["UserError", "body"]
        raise UserError("body")

    def op_inv(self, op, s, ev, c):
        tags, tf, v = op["tags"], op.get("tf", "args"), op.get("v")
        kw = {} if v is None and not op.get("cf", 0) % 2 else {"version": v}
        if op.get("api") == "w":
            dep = self.dep_arg(op, list(tags) if tf == "args" else self.tags_arg(op, s), op.get("cf", 0) if tags else 1)
            self.api(ev, lambda: c.cache.invalidate_dependency(dep, **kw))
        elif tf == "args":
            self.api(ev, lambda: c.invalidate_tags(*tags, **kw))
        else:
            arg = self.tags_arg(op, s)
            self.api(ev, lambda: c.invalidate_tags(arg, **kw))

    def op_begin(self, op, s, ev, c):
        self.api(ev, [lambda: c.transaction.begin(), lambda: c.transaction_begin()][op.get("old", 0)])

    def op_finish(self, op, s, ev, c):
        self.api(ev, [lambda: c.transaction.finish(), lambda: c.transaction_finish()][op.get("old", 0)])

    def op_flush(self, op, s, ev, c):
        self.api(ev, [lambda: c.transaction.flush(), lambda: c.transaction_finish_all()][op.get("old", 0)])

    def op_end(self, op, s, ev, c):
        """End of request."""
        sig = op.get("sig") and self.case["cfg"].get("wiring") in ("proxy", "global")
        alias = op.get("a", "default")
        self.stacks[s] = [] if sig else [e for e in self.stacks.get(s, ()) if e[2] != alias]
        if sig:
            self.api(ev, lambda: signals.request_finished.send(sender=self.__class__))
        else:
            ev.pop("sig", None)
            self.api(ev, c.close)

    def op_scope(self, op, s, ev, c):
        """A transaction scope around nested operations."""
        ev["body"] = []
        kind = op["kind"]

        def inner(*args, **kw):
            if kind not in ("with",):
                ev["args_ok"] = args == (1,) and kw == {"x": 2}
            self.body(op["body"], s, ev["body"])
            if op.get("raise"):
                raise UserError("scope")
            return "result"

        def run():
            if kind == "with":
                with c.transaction:
                    return inner()
            if kind == "module":
                if self.trampoline is not None:
                    return self.trampoline(lambda: inner(1, x=2))
                return c.transaction(inner)(1, x=2)
            if kind == "deco":
                return c.transaction(inner)(1, x=2)
            if kind == "deco()":
                return c.transaction()(inner)(1, x=2)
            decorators = self.op_names(op).decorators
            if kind == "old":
                return decorators.cache_transaction(inner, cache=c)(1, x=2)
            if kind == "old()":
                return decorators.cache_transaction(cache=c)(inner)(1, x=2)
            if kind == "all":
                return decorators.cache_transaction_all(inner, cache=c)(1, x=2)
            if kind == "all()":
                return decorators.cache_transaction_all(cache=c)(inner)(1, x=2)
            if kind in ("old(c)", "all(c)"):     # the cache itself is given in place of the function
                deco = decorators.cache_transaction if kind == "old(c)" else decorators.cache_transaction_all
                return deco(self.sys.own(op.get("a", "default")))(inner)(1, x=2)
            if kind in ("gold", "gall"):     # deprecated decorators bound to the default cache
                deco = decorators.cache_transaction if kind == "gold" else decorators.cache_transaction_all
                if op.get("cf", 0) % 2:
                    return deco()(inner)(1, x=2)
                return deco(inner)(1, x=2)
            raise ValueError(kind)
        try:
            r = self.api(ev, run)
            if r is not MISSING:
                ev["r"] = enc(r)
        except (UserError, UserExit):
            if not op.get("catch"):
                raise

    def op_request(self, op, s, ev, c):
        """One request through Django's handler with the transaction middleware; then the end of the request."""
        ev["body"] = []

        def view(request):
            self.body(op["body"], s, ev["body"])
            if op.get("raise"):
                raise UserError("view")
            return HttpResponse("ok", status=op.get("status", 200))
        def direct():
            alias = op.get("a", "default")
            kw = {"cache_alias": alias} if alias != "default" else {1: {"cache_alias": None}, 2: {"cache_alias": alias}}.get(op.get("kw"), {})
            mw = self.op_names(op).middleware.TransactionMiddleware(**kw)
            request = RequestFactory().get("/view/")
            mw.process_request(request)
            try:
                response = view(request)
            except UserError as e:
                mw.process_exception(request, e)
                response = HttpResponse(status=500)
            else:
                response = mw.process_response(request, response)
            ev["after"] = bool(c.transaction.current())
            if alias == "default":
                response.close()
            else:                 # only this cache has come to the end of its request
                c.close()
            return response.status_code
        r = self.api(ev, direct if op.get("direct") else lambda: handle(view, op))
        if r is not MISSING:
            ev["r"] = r
        self.stacks[s] = [x for x in self.stacks.get(s, ()) if op.get("a", "default") != "default" and x[2] != op["a"]]

    def op_ign(self, op, s, ev, c):
        def fn():
            c.ignore_descendants = op["on"]
        self.api(ev, fn)
        ev["now"] = bool(c.ignore_descendants)

    def op_state(self, op, s, ev, c):
        ev["open"] = bool(c.transaction.current())

    def op_same(self, op, s, ev, c):
        """Identity of the thread's cache object."""
        ev["id"] = id(self.sys.own(op.get("a", "default")))

    def op_foreign(self, op, s, ev, c):
        """Uses the managers of this session from another thread."""
        what = op["what"]
        if op["other"] == s or self.case["cfg"].get("deco") is False:
            ev["skip"] = 1
            return
        mgr = c.transaction if what[0] == "t" else c.relation_manager
        if self.case["cfg"].get("wiring") == "proxy":
            mgr = dcd.caches["default"].transaction if what[0] == "t" else mgr
        node = mgr.current()
        calls = {
            "t.begin": lambda: mgr.begin(), "t.finish": lambda: mgr.finish(), "t.flush": lambda: mgr.flush(),
            "t.current": lambda: mgr.current(), "t.setcurrent": lambda: mgr.current(node),
            "t.with": lambda: mgr.__enter__(), "t.deco": lambda: mgr(lambda: None)(),
            "r.get": lambda: mgr.get("uzz"), "r.current": lambda: mgr.current(),
            "r.setcurrent": lambda: mgr.current(node), "r.pop": lambda: mgr.pop(op.get("k", "u0")),
            "r.clear": lambda: mgr.clear(), "r.setkey": lambda: mgr.current("u0"),
        }
        res = []

        def target():
            try:
                calls[what]()
                res.append(None)
            except Exception as e:
                res.append(exc_info(e))
        session(op["other"]).call(target)
        ev["x2"] = res[0]

    # native operations -----------------------------------------------------
    def op_nat(self, op, s, ev, c):
        m, v, to, cf = op["m"], op.get("v"), op.get("to"), op.get("cf", 0)
        k = op.get("k")
        if k is not None and self.in_stack(s, k):
            ev["skip"] = 1
            return
        kw = {"version": v}

        def call():
            if m == "add":
                return c.add(k, dec(op["val"]), timeout=to, version=v) if cf % 2 else c.add(k, dec(op["val"]), to, v)
            if m == "delete":
                c.delete(k, version=v) if cf % 2 else c.delete(k, v)
                return None
            if m == "delete_many":
                c.delete_many(list(op["ks"]), version=v)
                return None
            if m == "set_many":
                c.set_many({x: dec(y) for x, y in op["data"]}, to, v)
                return None
            if m == "has_key":
                return bool(c.has_key(k, version=v))
            if m == "in":
                return bool(k in c)
            if m == "clear":
                c.clear()
                return None
            if m in ("incr", "decr"):
                return getattr(c, m)(k, op["d"], version=v)
            raise ValueError(m)
        r = self.api(ev, call)
        if r is not MISSING:
            ev["r"] = enc(r)


def run(case):
    return {"events": Case(case).run()}
