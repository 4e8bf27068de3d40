"""Engine for template fragments and cached pages."""
import boot
from boot import clock, hook, UserError, exc_info
from sessions import session
import phased.utils
import names
import vbackends
import vtags
import vtemplates
import vurls
import webast

import django_cache_dependencies as dcd
from django_cache_dependencies import middleware
from django.conf import settings
from django.core.handlers.base import BaseHandler
from django.http import HttpResponse, StreamingHttpResponse
from django.template import TemplateSyntaxError, engines
from django.template.response import TemplateResponse
from django.test import RequestFactory

DEFAULT_COLLECTION = dcd.caches
NEW = names.NEW
LOG = vtags.LOG
RUN = [None]


class Fns(object):
    def __init__(self, run):
        self.run = run

    def __getitem__(self, j):
        return lambda: self.run.fn(int(j))


class Named(object):
    """Session and user of a request."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class StubMiddleware(object):
    """Gives every request a session, a user and a language."""

    def __init__(self, get_response):
        self.get_response = get_response

    def __call__(self, request):
        op = RUN[0].op
        if not op.get("nosession"):
            request.session = Named(accessed=False)
            auth = bool(op.get("auth"))
            request.user = Named(is_authenticated=lambda: auth)
        if op.get("lang"):
            request.LANGUAGE_CODE = op["lang"]
        return self.get_response(request)


class GateMiddleware(object):
    """Answers some requests itself."""

    def __init__(self, get_response):
        self.get_response = get_response

    def __call__(self, request):
        return HttpResponse("gate") if RUN[0].op.get("short") else self.get_response(request)


def with_tags(middleware):
    class TagsUpdateMiddleware(middleware.UpdateCacheMiddleware):
        def __init__(self, get_response=None):
            super(TagsUpdateMiddleware, self).__init__(get_response)
            self.tags = lambda request: RUN[0].view_tags()

    class TagsCacheMiddleware(middleware.CacheMiddleware):
        def __init__(self, get_response=None):
            super(TagsCacheMiddleware, self).__init__(get_response, tags=lambda request: RUN[0].view_tags())
    return TagsUpdateMiddleware, TagsCacheMiddleware


TagsUpdateMiddleware, TagsCacheMiddleware = with_tags(middleware)


class Run(object):
    def __init__(self, case):
        self.case = case
        RUN[0] = self
        cfg = self.cfg = case["cfg"]
        self.names = names.old() if cfg.get("names") else NEW
        if cfg.get("names") and "OldUpdateMiddleware" not in globals():
            globals()["OldUpdateMiddleware"], globals()["OldCacheMiddleware"] = with_tags(self.names.middleware)
        vbackends.locmem_reset()
        vbackends.DEFAULT_VERSION[0] = cfg.get("dver", 1)
        clock.reset()
        hook.reset()
        tagging = {"default": {}}
        if cfg.get("iso"):
            tagging["default"]["ISOLATION_LEVEL"] = cfg["iso"]
        settings.CACHE_TAGGING = tagging
        settings.USE_I18N = bool(cfg.get("i18n"))
        settings.USE_L10N = bool(cfg.get("l10n"))
        settings.USE_ETAGS = bool(cfg.get("etags"))
        settings.CACHE_MIDDLEWARE_SECONDS = cfg.get("seconds", 600)
        settings.CACHE_MIDDLEWARE_KEY_PREFIX = cfg.get("prefix", "")
        settings.CACHE_MIDDLEWARE_ALIAS = cfg.get("alias", "default")
        if cfg.get("anon") is not None:
            settings.CACHE_MIDDLEWARE_ANONYMOUS_ONLY = bool(cfg["anon"])
        elif hasattr(settings, "CACHE_MIDDLEWARE_ANONYMOUS_ONLY"):      # which the framework does not define
            del settings.CACHE_MIDDLEWARE_ANONYMOUS_ONLY
        dcd.caches = DEFAULT_COLLECTION
        self.active = []              # threads which are at work
        self.side = [dict(op) for op in case.get("side", ())]
        vtags.SWITCH[0] = self.switch
        self.reset()
        self.reload()
        self.threads = cfg.get("threads", 0)
        for s in range(self.threads):
            session(s).call(self.reset)
        self.writer = NEW if cfg.get("names") == "mix" else self.names      # the data are changed by other code than the views
        vtemplates.SOURCES.clear()
        for name, tpl in case["templates"].items():
            vtemplates.SOURCES.update(webast.sources(name, tpl))
        self.data = phased.utils.DATA[0] = list(case["data"])
        self.calls = 0
        self.out = []
        self.ctx = webast.context(case)
        self.views = [self.decorate(v) for v in case.get("views", [])]

    def reset(self):
        """Of the state of this thread."""
        for n in {NEW, self.names}:
            n.dcd.caches.__init__()

    @staticmethod
    def reload():
        for name in ("django", "old"):
            for loader in engines[name].engine.template_loaders:
                loader.reset()

    def switch(self):
        """Another thread does something meanwhile, if there is something to do."""
        if self.side and len(self.active) < self.threads:
            op = self.side.pop(0)
            LOG.append(["side", op, self.turn(op)])

    def turn(self, op):
        """The operation by its thread."""
        if not self.threads:
            return self.one(op)
        s = op.get("s", 0) % self.threads
        while s in self.active:
            s = (s + 1) % self.threads
        self.active.append(s)
        try:
            return session(s).call(lambda: self.one(op))
        finally:
            self.active.remove(s)

    def caches(self):
        return [self.writer.dcd.caches[a] for a in (["default", "second"] if self.cfg.get("second") else ["default"])]

    def fn(self, j):
        """A value got through the cache by the code of the application."""
        f = self.case["fns"][j]
        dcd, dependencies = self.names.dcd, self.names.dependencies
        cache = dcd.cache if f.get("alias", "default") == "default" else dcd.caches[f["alias"]]
        key, tag = "fn%d" % j, "T%d" % f["var"]

        def compute():
            LOG.append(["fn", str(j)])
            self.switch()
            return ["val", self.data[f["var"]]]
        form = f.get("form", 0)
        kw = {"version": cache.version} if f.get("ver") else {}      # the default version, explicitly
        if form == 0:
            return cache.get_or_set_callback(key, compute, [tag], 600, **kw)[1]
        if form == 1:
            return cache.get_or_set_callback(key, compute, dependencies.TagsDependency(tag), 600, **kw)[1]
        if form == 2:
            r = cache.get(key, **kw)
        else:
            r = cache.get_many([key], **kw).get(key)
        if r is None:
            if form == 3:
                cache.begin(key)
            r = compute()
            cache.set(key, r, [tag], 600, **kw)
        return r[1]

    @property
    def using(self):
        """Name of the template engine."""
        return "old" if self.cfg.get("names") else "django"

    def context(self, request=None):
        return dict(self.ctx, v=self.data, fns=Fns(self))

    # pages

    def view_tags(self):
        return self.case["views"][self.op["view"]].get("tags") or ()

    def decorate(self, spec):
        """A view which cannot be decorated fails when it is requested."""
        try:
            view = self.decorated(spec)
            if not callable(view):
                raise TypeError("the decorated view is %r" % (view,))
        except Exception as e:
            def view(request, e=e):
                raise e
        return view

    def decorated(self, spec):
        def view(request):
            return self.view(spec, request)
        if self.cfg["site"] != "decorator" or spec.get("bare"):
            return view
        kw = {}
        decorators = self.names.decorators
        if spec.get("alias"):
            kw["cache"] = spec["alias"]
        if spec.get("prefix") is not None:
            kw["key_prefix"] = spec["prefix"]
        if spec.get("tags") is not None:
            kw["tags"] = lambda request: {"tuple": tuple, "list": list, "set": set}[spec.get("tagsform", "tuple")](spec["tags"])
        t = spec.get("timeout")
        style = spec.get("style", 0)
        if t is None:
            return decorators.cache_page(**kw)(view) if style else decorators.cache_page(view, **kw)
        if style == 0:
            return decorators.cache_page(t, **kw)(view)
        return decorators.cache_page(view, t, **kw) if style == 1 else decorators.cache_page(t, view, **kw)

    def write(self, w):
        """Changes data and invalidates the tag."""
        i, x = w[0], w[1]
        dcd = self.writer.dcd
        mode = w[2] if len(w) > 2 else 0
        if mode == 1:
            with dcd.cache.transaction:
                self.data[i] = x
                self.invalidate(["T%d" % i])
        elif mode == 2:
            @dcd.cache.transaction
            def change():
                self.data[i] = x
                self.invalidate(["T%d" % i])
            change()
        else:
            self.data[i] = x
            self.invalidate(["T%d" % i])

    def invalidate(self, tags):
        for c in self.caches():
            c.invalidate_tags(*tags)

    def view(self, spec, request):
        op = self.op
        self.calls += 1
        n = self.calls
        LOG.append(["view", str(n)])
        self.switch()
        if op.get("write"):
            self.write(op["write"])
        b = dict(spec.get("behave") or {}, **(op.get("behave") or {}))
        if b.get("session") and not op.get("nosession"):
            request.session.accessed = True
        if b.get("prevent"):
            self.names.utils.prevent_cache_page(request)
        if spec.get("addtags"):
            if not hasattr(request, "cache_tagging"):
                request.cache_tagging = set()
            request.cache_tagging.update(spec["addtags"])
        if b.get("raise"):
            raise UserError("view")
        ctx = self.context(request)
        if spec.get("body") and spec.get("lazy"):
            resp = TemplateResponse(request, spec["body"], ctx, using=self.using)
        else:
            text = ""
            if spec.get("body"):
                text = str(engines[self.using].get_template(spec["body"]).render(ctx, request))
            if spec.get("echo"):
                text += "|" + "|".join("%s=%s" % (h, request.META.get("HTTP_" + h.upper().replace("-", "_"))) for h in spec["echo"])
            resp = StreamingHttpResponse([text]) if b.get("stream") else HttpResponse(text)
        resp.status_code = b.get("status", 200)
        resp["X-Call"] = str(n)
        for h, x in (spec.get("headers") or {}).items():
            resp[h] = x
        if b.get("cc"):
            resp["Cache-Control"] = b["cc"]
        if spec.get("vary"):
            resp["Vary"] = spec["vary"]
        if spec.get("cookie"):
            resp.set_cookie("sid", str(n))
        return resp

    def request(self, op):
        site = self.cfg["site"]
        own = "Old" if self.cfg.get("names") else "Tags"
        mw = ["webrun.StubMiddleware"]
        if self.cfg.get("txmw"):
            mw.append(self.names.path + ".middleware.TransactionMiddleware")
        plain = self.cfg.get("plainmw")
        if site == "split":
            mw += [self.names.path + ".middleware.UpdateCacheMiddleware" if plain else "webrun.%sUpdateMiddleware" % own,
                   "webrun.GateMiddleware", self.names.path + ".middleware.FetchFromCacheMiddleware"]
        elif site == "single":
            mw.append(self.names.path + ".middleware.CacheMiddleware" if plain else "webrun.%sCacheMiddleware" % own)
        settings.MIDDLEWARE, settings.MIDDLEWARE_CLASSES = mw, []
        key = tuple(mw)
        h = self.__dict__.setdefault("handlers", {}).get(key)
        if h is None:
            h = self.handlers[key] = BaseHandler()
            h.load_middleware()
        vurls.CURRENT.view = self.views[op["view"]]
        extra = {"HTTP_" + k.upper().replace("-", "_"): x for k, x in (op.get("hdr") or {}).items()}
        if op.get("host"):
            extra["HTTP_HOST"] = op["host"]
        request = getattr(RequestFactory(), op.get("method", "GET").lower())("/view/" + op.get("url", ""), **extra)
        resp = h.get_response(request)
        if getattr(resp, "streaming", False):
            text = b"".join(resp.streaming_content).decode("utf-8")
        else:
            text = resp.content.decode("utf-8")
        r = {"status": resp.status_code, "text": text, "headers": sorted([k, v] for k, v in resp.items()),
             "cookies": sorted((k, m.OutputString()) for k, m in resp.cookies.items())}
        if not op.get("noend"):
            resp.close()
        return r

    def main(self):
        for op in self.case["ops"]:
            if self.cfg.get("compile"):
                self.reload()
            self.out.append(self.turn(op))
            clock.advance(0.01)
        for s in range(self.threads):
            session(s).call(self.close)
        self.close()
        return {"out": self.out}

    def close(self):
        for c in self.caches():
            c.close()

    def one(self, op):
        outer, log = getattr(self, "op", None), LOG[:]
        self.op = op
        del LOG[:]
        r = {}
        try:
            getattr(self, "op_" + op["o"])(op, r)
        except UserError:
            r["raised"] = 1
        except TemplateSyntaxError as e:
            r["refused"] = exc_info(e)
        except Exception as e:
            r["error"] = exc_info(e)
        r["log"] = list(LOG)
        self.op = outer
        LOG[:] = log
        return r

    def op_set(self, op, r):
        self.write(op["w"])

    def op_inv(self, op, r):
        self.invalidate(op["tags"])

    def op_tick(self, op, r):
        clock.advance(op["dt"])

    def op_begin(self, op, r):
        for c in self.caches():
            c.transaction.begin()

    def op_finish(self, op, r):
        for c in self.caches():
            c.transaction.finish()

    def op_close(self, op, r):
        self.close()

    def op_render(self, op, r):
        request = None
        if op.get("req"):
            request = RequestFactory().get("/")
            request._cache_update_cache = True
        tpl = engines[self.using].get_template(op["t"])
        try:
            r["text"] = str(tpl.render(self.context(), request))
        finally:
            if request is not None:
                r["tags"] = sorted(getattr(request, "cache_tagging", ()))
                r["update"] = bool(request._cache_update_cache)

    def op_req(self, op, r):
        r.update(self.request(op))


def run(case):
    if case["cfg"].get("names"):
        try:
            names.old()
        except Exception as e:
            return {"out": [{"log": [], "error": exc_info(e)}]}
    try:
        return Run(case).main()
    finally:
        vbackends.DEFAULT_VERSION[0] = 1
