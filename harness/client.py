"""Talks to the PyPy process which executes cases on the real code."""
import json
import os
import re
import select
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")


REPO = os.environ.get("VERIF_REPO", "/repo")


class HarnessError(Exception):
    """The machinery failed (never reported as a violation)."""


class LibraryError(Exception):
    """The code under test raised an exception where it never does."""


def by_library(text):
    """Was the exception raised by the code under test (or by something it called), not by the machinery?"""
    own = [f for f in re.findall(r'File "([^"]+)"', text) if f.startswith((HERE + "/", REPO + "/"))]
    return bool(own) and own[-1].startswith(REPO + "/")


class Hang(Exception):
    """The code under test did not answer."""


class Worker(object):
    def __init__(self, timeout=60):
        self.timeout = timeout
        self.proc = None
        self.runs = 0

    def start(self):
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
        env.pop("DJANGO_SETTINGS_MODULE", None)
        self.proc = subprocess.Popen(
            [PYTHON, os.path.join(HERE, "worker", "main.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None, env=env, cwd="/", bufsize=0)
        self.buf = b""

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.kill()
                self.proc.wait()
                self.proc.stdin.close()
                self.proc.stdout.close()
            except Exception:
                pass
            self.proc = None

    def _read(self, n, timeout):
        """n bytes, or a line when n is None."""
        fd = self.proc.stdout.fileno()
        while True:
            if n is None:
                i = self.buf.find(b"\n")
                if i >= 0:
                    r, self.buf = self.buf[:i], self.buf[i + 1:]
                    return r
            elif len(self.buf) >= n:
                r, self.buf = self.buf[:n], self.buf[n:]
                return r
            ready, _, _ = select.select([fd], [], [], timeout)
            if not ready:
                raise Hang()
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                raise EOFError()
            self.buf += chunk

    def run(self, case, fresh=False):
        if fresh:
            self.stop()
        if self.proc is None:
            self.start()
        self.runs += 1
        try:
            self.proc.stdin.write(json.dumps(case).encode("ascii") + b"\n")
            n = int(self._read(None, self.timeout))
            out = json.loads(self._read(n, self.timeout).decode("ascii"))
        except Hang:
            self.stop()
            raise
        except (EOFError, BrokenPipeError) as e:
            self.stop()
            raise HarnessError("worker died on %s" % json.dumps(case)[:2000]) from e
        if "harness_error" in out:
            self.stop()
            if by_library(out["harness_error"]):
                raise LibraryError(out["harness_error"].strip().splitlines()[-1])
            raise HarnessError(out["harness_error"] + "\ncase: " + json.dumps(case)[:3000])
        return out
