"""Runs under the repository's interpreter (PyPy). Virtual time and timers are
installed before the code under test is imported."""
import os
import sys
import time
import threading
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
for p in (os.path.dirname(HERE), HERE, REPO):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)

real_time = time.time
EPOCH = 1500000000.0


class Clock(object):
    def __init__(self):
        self.now = EPOCH
        self.timers = []
        self.nonce = 0

    def reset(self):
        self.now = EPOCH
        self.timers = []

    def time(self):
        return self.now

    def pending(self):
        return [t for t in self.timers if not t.dead]

    def advance(self, dt, log=None):
        """Moves the time forward, running every timer that becomes due, in order."""
        target = self.now + dt
        while True:
            due = [t for t in self.timers if not t.dead and t.due <= target]
            if not due:
                break
            t = min(due, key=lambda t: (t.due, t.no))
            t.dead = True
            self.now = max(self.now, t.due)
            err = t.fire()
            if log is not None:
                log.append(["timer", self.now, err])
        self.timers = self.pending()
        self.now = target


clock = Clock()


class VTimer(object):
    """Stand-in of threading.Timer on the virtual clock; the target runs in a thread of its own."""

    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval = interval
        self.function = function
        self.args = list(args or [])
        self.kwargs = dict(kwargs or {})
        self.daemon = False
        self.name = "VTimer"
        self.dead = False
        clock.nonce += 1
        self.no = clock.nonce

    def setDaemon(self, v):
        self.daemon = v

    def start(self):
        self.due = clock.now + self.interval
        clock.timers.append(self)

    def cancel(self):
        self.dead = True

    def is_alive(self):
        return not self.dead

    def join(self, timeout=None):
        pass

    def fire(self):
        err = []

        def target():
            try:
                self.function(*self.args, **self.kwargs)
            except Exception as e:
                err.append("%s: %s" % (type(e).__name__, e))
        t = threading.Thread(target=target)
        t.daemon = True
        t.start()
        t.join()
        return err[0] if err else None


time.time = clock.time
threading.Timer = VTimer


class BackendError(Exception):
    """Injected failure of the cache backend."""


class BackendExit(BaseException):
    """The same by an exception which is not an Exception (like the timeouts of gevent)."""


class UserError(Exception):
    """Exception of the application."""


class UserExit(BaseException):
    """Exception of the application which is not an Exception (like SystemExit)."""


class InvalidKey(Exception):
    """As raised by clients of memcached."""


def check_keys(arg):
    """The keys which the library makes up suit every backend; those of users begin with u or are numbers."""
    for key in arg if isinstance(arg, (list, tuple, set, frozenset, dict)) else [arg]:
        if isinstance(key, str) and not key.startswith("u") and (len(key) > 200 or any(ord(c) < 33 or ord(c) == 127 for c in key)):
            raise InvalidKey(repr(key))


class Hook(object):
    """Observes every call of a cache backend; may fail or suspend it."""

    def __init__(self):
        self.tl = threading.local()
        self.reset()

    def reset(self):
        self.fault = None
        self.fired = 0
        self.count = 0
        self.sched = None
        self.log = None
        self.strict = False

    def call(self, name, arg, fn):
        tl = self.tl
        if getattr(tl, "depth", 0):
            return fn()
        tl.depth = 1
        try:
            self.count += 1
            if self.strict:
                check_keys(arg)
            if self.sched is not None:
                self.sched.point(name)
            if self.log is not None:
                self.log.append([name, arg])
            f = self.fault
            if f is not None:
                if f["n"] <= 0:
                    self.fault = None
                    self.fired += 1
                    if f["mode"] == "after":
                        fn()
                    raise (BackendExit if f.get("exit") else BackendError)("injected")
                f["n"] -= 1
            return fn()
        finally:
            tl.depth = 0


hook = Hook()
MODULES = {}


def setup_django(backend="vbackends.HookLocMem"):
    from django.conf import settings
    settings.configure(
        DEBUG=False,
        ALLOWED_HOSTS=["*"],
        SECRET_KEY="verif-secret",
        DATABASES={"default": {"ENGINE": "django.db.backends.sqlite3", "NAME": ":memory:"}},
        CACHES={
            "default": {"BACKEND": backend, "LOCATION": "main", "OPTIONS": {"MAX_ENTRIES": 1000000}},
            "second": {"BACKEND": backend, "LOCATION": "second", "OPTIONS": {"MAX_ENTRIES": 1000000}},
        },
        CACHE_TAGGING={"default": {}},
        CACHE_MIDDLEWARE_SECONDS=600,
        CACHE_MIDDLEWARE_KEY_PREFIX="",
        INSTALLED_APPS=["django_cache_dependencies", "vapp"],
        MIDDLEWARE=[],
        ROOT_URLCONF="vurls",
        USE_I18N=False,
        USE_L10N=False,
        USE_TZ=False,
        LOGGING_CONFIG=None,
        TEMPLATES=[{
            "BACKEND": "django.template.backends.django.DjangoTemplates",
            "DIRS": [],
            "OPTIONS": {"loaders": [("django.template.loaders.cached.Loader", [("vtemplates.DictLoader",)])], "builtins": ["vtags"],
                        "context_processors": ["django.template.context_processors.request"]},
        }, {
            "BACKEND": "django.template.backends.django.DjangoTemplates",
            "NAME": "old",          # the template library of the deprecated package
            "DIRS": [],
            "OPTIONS": {"loaders": [("django.template.loaders.cached.Loader", [("vtemplates.DictLoader",)])], "builtins": ["vtags"],
                        "context_processors": ["django.template.context_processors.request"],
                        "libraries": {"cache_tagging_tags": "cache_tagging.django_cache_tagging.templatetags.cache_tagging_tags"}},
        }],
    )
    import django
    django.setup()


def exc_info(e):
    if os.environ.get("VERIF_DEBUG"):
        import traceback
        traceback.print_exc(limit=12)
    return [type(e).__name__, str(e)[:300]]
