"""Persistent real threads which execute one thing at a time on request."""
import threading
import traceback


class HarnessError(Exception):
    pass


class Session(object):
    def __init__(self, no):
        self.no = no
        self._go = threading.Semaphore(0)
        self._done = threading.Semaphore(0)
        self._fn = None
        self._res = None
        t = threading.Thread(target=self._loop)
        t.daemon = True
        t.start()
        self.thread = t

    def _loop(self):
        while True:
            self._go.acquire()
            try:
                self._res = (True, self._fn())
            except BaseException:
                self._res = (False, traceback.format_exc())
            self._done.release()

    def call(self, fn):
        self.post(fn)
        return self.wait()

    def post(self, fn):
        self._fn = fn
        self._go.release()

    def wait(self):
        self._done.acquire()
        ok, r = self._res
        if not ok:
            raise HarnessError(r)
        return r


_pool = []


def session(i):
    while len(_pool) <= i:
        _pool.append(Session(len(_pool)))
    return _pool[i]
