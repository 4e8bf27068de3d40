"""Dependencies as an application defines them: what TagsDependency does, by another class."""
import copy

from cache_dependencies import defer, exceptions, interfaces
from cache_dependencies.dependencies import TagsDependency


class Custom(interfaces.IDependency):
    """Never merged with any other dependency."""

    def __init__(self, *tags):
        self.inner = TagsDependency(list(tags))

    def evaluate(self, cache, transaction, version):
        self.inner.evaluate(cache, transaction, version)

    def validate(self, cache, version):
        return self.inner.validate(cache, version)

    def invalidate(self, cache, version):
        self.inner.invalidate(cache, version)

    def acquire(self, cache, transaction, version):
        self.inner.acquire(cache, transaction, version)

    def release(self, cache, transaction, delay, version):
        self.inner.release(cache, transaction, delay, version)

    def extend(self, other):
        return False

    def __copy__(self):
        c = type(self)()
        c.inner = copy.copy(self.inner)
        return c


class Merging(Custom):
    """Merged with its own kind; validated by a query of its own."""

    def validate(self, cache, version):
        def callback(node, caches):
            try:
                self.inner.validate(cache, version).get()
            except exceptions.DependencyInvalid as e:
                raise exceptions.DependencyInvalid(self, e.errors)
        deferred = defer.Deferred(None, defer.NoneDeferredIterator)
        deferred.add_callback(callback)
        return deferred

    def extend(self, other):
        return isinstance(other, Merging) and self.inner.extend(other.inner)


class Querying(Custom):
    """Validated by batch queries which cannot be joined with those of other dependencies."""

    def validate(self, cache, version):
        def query(keys, version):
            return cache.get_many(keys, version)

        class Proxy(object):
            get_many = staticmethod(query)
        return self.inner.validate(Proxy, version)
