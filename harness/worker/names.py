"""The library under its current and its deprecated package names."""
import importlib


class Names(object):
    def __init__(self, lib, django):
        def mod(name):
            return importlib.import_module(lib + "." + name)
        self.path = django
        self.dcd = importlib.import_module(django)
        self.dependencies, self.tagging, self.relations = mod("dependencies"), mod("tagging"), mod("relations")
        self.locks, self.transaction, self.nocache = mod("locks"), mod("transaction"), mod("nocache")
        self.decorators = importlib.import_module(django + ".decorators")
        self.middleware = importlib.import_module(django + ".middleware")
        self.utils = importlib.import_module(django + ".utils")


NEW = Names("cache_dependencies", "django_cache_dependencies")
_old = []


def old():
    """Raises whatever the import of the deprecated names raises."""
    if not _old:
        _old.append(Names("cache_tagging", "cache_tagging.django_cache_tagging"))
    return _old[0]
