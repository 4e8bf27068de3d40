"""Engine for models whose changes invalidate tags."""
import gc
import sys

import boot
from boot import clock, hook, exc_info
import vbackends
from sessions import session

import django_cache_dependencies as dcd
from django.apps import apps
from django.conf import settings
from django.db import connections
from django.db.models import signals
from vapp.models import A, B, C

DEFAULT_COLLECTION = dcd.caches
PENDING = []


MODELS = {"A": A, "B": B, "C": C}
CONN = connections["default"]
CONN.allow_thread_sharing = True
with CONN.schema_editor() as editor:
    for m in (A, B, C):
        editor.create_model(m)
SIGNALS = [signals.post_save, signals.pre_save, signals.pre_delete, signals.post_delete, signals.post_init, signals.pre_init]
SNAPSHOT = [list(s.receivers) for s in SIGNALS]


def tag_list(name, what, obj):
    return ["%s%s" % (name, {"all": "", "pk": ".pk:%s" % obj.pk, "cat": ".cat:%s" % obj.cat,
                             "comp": ".cat:%s.pk:%s" % (obj.cat, obj.pk)}[w]) for w in what]


def handler(h):
    name, what = h["model"], h["what"]
    coll = {"list": list, "tuple": tuple, "set": set, "fset": frozenset, "one": lambda x: x[0]}[h["coll"]]

    def tags(obj):
        return coll(tag_list(name, what, obj))
    form = h["form"]
    if form == "obj":
        return lambda obj: tags(obj)
    if form == "kw":
        return lambda *a, **kw: tags(kw["instance"])
    if form == "named":
        def fn(sender, instance, **kwargs):
            return tags(instance)
        return fn
    if form == "instance":
        return lambda instance, **kw: tags(instance)

    class Callable(object):
        def __call__(self, instance):
            return tags(instance)
    return Callable()


def connect():
    connections["default"] = CONN


class Run(object):
    def __init__(self, case):
        self.case = case
        vbackends.locmem_reset()
        clock.reset()
        hook.reset()
        cfg = {"default": {}, "second": {}}
        if case.get("iso"):
            cfg["default"]["ISOLATION_LEVEL"] = cfg["second"]["ISOLATION_LEVEL"] = case["iso"]
        settings.CACHE_TAGGING = cfg
        dcd.caches = DEFAULT_COLLECTION
        for s, r in zip(SIGNALS, SNAPSHOT):
            s.receivers = list(r)
            s.sender_receivers_cache.clear()
        for m in (C, B, A):
            m.objects.all()._raw_delete("default")
        with CONN.cursor() as c:
            c.execute("select name from sqlite_master where name='sqlite_sequence'")
            if c.fetchone():
                c.execute("delete from sqlite_sequence")
        regs = []
        for h in case["handlers"]:
            row = (MODELS[h["model"]], handler(h))
            if "alias" in h:
                row += (h["alias"],)
            regs.append(row)
        groups = [regs] if not case.get("split") else [[r] for r in regs]
        for g in groups:
            if case.get("discover"):
                PENDING[:] = g
                sys.modules.pop("vapp.caches", None)
                old = settings.INSTALLED_APPS
                settings.INSTALLED_APPS = ["nosuchapp_verif"] + [
                    "vapp.apps.VappConfig" if case["discover"] == 2 and app == "vapp" else app for app in old]
                try:
                    dcd.autodiscover()
                finally:
                    settings.INSTALLED_APPS = old
            else:
                (dcd.registry.register)(tuple(g) if case.get("tuple") else list(g))
        if case.get("gc"):            # what nothing refers to goes away
            gc.collect()
        self.out = []

    def on(self, th, fn):
        def job():
            connect()
            return fn()
        return session(th).call(job)

    def reset(self):
        dcd.caches.__init__()

    def main(self):
        for th in (0, 1):
            self.on(th, self.reset)
        for op in self.case["ops"]:
            r = {}
            try:
                self.on(op.get("th", 0), lambda: getattr(self, "op_" + op["o"])(op, r))
            except Exception as e:
                r["error"] = exc_info(e)
            if "error" not in r:
                r["have"] = self.on(op.get("rd", 0), self.have)
            clock.advance(0.01)
            self.out.append(r)
        for th in (0, 1):
            self.on(th, dcd.close_caches)
        return {"out": self.out}

    def have(self):
        res = []
        for alias in ("default", "second"):
            for k in self.case["keys"]:
                c = dcd.caches[alias]
                if c.get(k) is not None:
                    res.append([alias, k])
                else:
                    c.abort(k)
        return res

    def guard(self, r, fn):
        try:
            fn()
        except Exception as e:
            r["error"] = exc_info(e)

    def op_put(self, op, r):
        self.guard(r, lambda: dcd.caches[op["alias"]].set(op["key"], 1, op["tags"], 10000))

    def obj(self, op):
        return MODELS[op["m"]].objects.get(pk=op["pk"])

    def op_create(self, op, r):
        kw = {"cat": op["cat"]}
        if op.get("a"):
            kw["a_id"] = op["a"]
        if op.get("pk"):
            kw["pk"] = op["pk"]
        M = MODELS[op["m"]]

        def fn():
            how = op.get("how", 0)
            if how == 0:
                o = M.objects.create(**kw)
            elif how == 1:
                o = M(**kw)
                o.save()
            elif how == 2:
                o = M.objects.get_or_create(pk=op["pk"], defaults={k: v for k, v in kw.items() if k != "pk"})[0]
            elif how == 3:
                o = M.objects.update_or_create(pk=op["pk"], defaults={k: v for k, v in kw.items() if k != "pk"})[0]
            else:
                M.objects.bulk_create([M(**kw)])
                return
            r["pk"] = o.pk
        self.guard(r, fn)

    def op_save(self, op, r):
        def fn():
            o = self.obj(op)
            o.cat = op["cat"]
            if op.get("fields"):
                o.save(update_fields=["cat"])
            else:
                o.save()
        self.guard(r, fn)

    def op_update(self, op, r):
        self.guard(r, lambda: MODELS[op["m"]].objects.filter(pk=op["pk"]).update(cat=op["cat"]))

    def op_delete(self, op, r):
        def fn():
            how = op.get("how", 0)
            if how == 0:
                self.obj(op).delete()
            elif how == 1:
                MODELS[op["m"]].objects.filter(pk=op["pk"]).delete()
            else:
                MODELS[op["m"]].objects.all().delete()
        self.guard(r, fn)

    def op_begin(self, op, r):
        for a in ("default", "second"):
            dcd.caches[a].transaction.begin()

    def op_finish(self, op, r):
        for a in ("default", "second"):
            dcd.caches[a].transaction.finish()


def run(case):
    return Run(case).main()
