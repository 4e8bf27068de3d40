"""Cache backends observed by boot.hook."""
import pickle

from django.core.cache.backends import locmem
from cache_dependencies.cache import AbstractCache

from boot import hook, clock

METHODS = ("get", "set", "add", "delete", "get_many", "set_many", "delete_many",
           "has_key", "incr", "decr", "clear", "incr_version", "decr_version")


def hooked(cls):
    for name in METHODS:
        orig = getattr(cls, name)

        def make(orig, name):
            def method(self, *args, **kwargs):
                return hook.call(name, args[0] if args else None, lambda: orig(self, *args, **kwargs))
            method.__name__ = name
            return method
        setattr(cls, name, make(orig, name))
    return cls


DEFAULT_VERSION = [1]       # as configured


def version_of(cls):
    cls.version = property(lambda self: DEFAULT_VERSION[0], lambda self, v: None)
    return cls


@hooked
@version_of
class HookLocMem(locmem.LocMemCache):
    pass


def locmem_reset(name=None):
    for n, d in locmem._caches.items():
        if name is None or n == name:
            d.clear()
    for n, d in locmem._expire_info.items():
        if name is None or n == name:
            d.clear()


def locmem_keys(name):
    return sorted(locmem._caches.get(name, {}))


def locmem_drop(name, raw):
    locmem._caches.get(name, {}).pop(raw, None)
    locmem._expire_info.get(name, {}).pop(raw, None)


@version_of
class _Plain(AbstractCache):
    """The least an application has to write to use the library without Django."""

    def __init__(self):
        self.data = {}

    def get(self, key, default=None, version=None):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        if raw not in self.data:
            return default
        blob, expire = self.data[raw]
        if expire is not None and expire <= clock.now:
            del self.data[raw]
            return default
        return pickle.loads(blob)

    def set(self, key, value, timeout=None, version=None):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        self.data[raw] = (pickle.dumps(value, 2), None if timeout is None else clock.now + timeout)

    def add(self, key, value, timeout=None, version=None):
        if self.get(key, version=version) is not None:
            return False
        self.set(key, value, timeout, version)
        return True

    def delete(self, key, version=None):
        self.data.pop(self.make_key(key, version), None)

    def clear(self):
        self.data.clear()


@hooked
class PlainCache(_Plain):
    pass


class _Ref(_Plain):
    """Keeps the objects themselves, as a cache inside of one process may do."""

    def get(self, key, default=None, version=None):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        if raw not in self.data:
            return default
        obj, expire = self.data[raw]
        if expire is not None and expire <= clock.now:
            del self.data[raw]
            return default
        return obj

    def set(self, key, value, timeout=None, version=None):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        self.data[raw] = (value, None if timeout is None else clock.now + timeout)


@hooked
class RefCache(_Ref):
    pass
