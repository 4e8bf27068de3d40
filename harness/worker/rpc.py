"""A cache backend in another process (the hub); values travel pickled, as to a real cache server."""
import pickle
import socket
import struct

from django.core.cache.backends.base import BaseCache, DEFAULT_TIMEOUT

import vbackends


def recvn(sock, n):
    buf = b""
    while len(buf) < n:
        chunk = sock.recv(n - len(buf))
        if not chunk:
            raise EOFError()
        buf += chunk
    return buf


def send(sock, obj):
    data = pickle.dumps(obj, 2)
    sock.sendall(struct.pack("!I", len(data)) + data)


def recv(sock):
    return pickle.loads(recvn(sock, struct.unpack("!I", recvn(sock, 4))[0]))


class Store(object):
    """The stored data: {alias: {raw key: (blob, moment of expiry or None)}}."""

    def __init__(self):
        self.data = {}

    def live(self, alias, raw, now):
        d = self.data.setdefault(alias, {})
        e = d.get(raw)
        if e is not None and e[1] is not None and e[1] <= now:
            del d[raw]
            e = None
        return e

    def call(self, now, name, alias, *a):
        d = self.data.setdefault(alias, {})
        if name == "get":
            return (self.live(alias, a[0], now) or (None,))[0]
        if name == "get_many":
            return [(self.live(alias, raw, now) or (None,))[0] for raw in a[0]]
        if name == "set":
            d[a[0]] = (a[1], a[2])
        elif name == "set_many":
            for raw, blob in a[0]:
                d[raw] = (blob, a[1])
        elif name == "add":
            if self.live(alias, a[0], now):
                return False
            d[a[0]] = (a[1], a[2])
            return True
        elif name == "delete":
            for raw in a[0]:
                d.pop(raw, None)
        elif name == "clear":
            d.clear()
        else:
            raise ValueError(name)


class Client(object):
    """The connection of this process; without one it works on a store of its own."""

    def __init__(self):
        self.sock = None
        self.own = Store()

    def connect(self, name):
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.connect(name)

    def call(self, *args):
        if self.sock is None:
            return self.own.call(0, *args)
        send(self.sock, ("rpc", args))
        return recv(self.sock)


client = Client()


class RpcCache(BaseCache):
    def __init__(self, name, params):
        super(RpcCache, self).__init__(params)
        self.name = name

    def raw(self, key, version):
        raw = self.make_key(key, version=version)
        self.validate_key(raw)
        return raw

    def get(self, key, default=None, version=None):
        blob = client.call("get", self.name, self.raw(key, version))
        return default if blob is None else pickle.loads(blob)

    def get_many(self, keys, version=None):
        keys = list(keys)
        blobs = client.call("get_many", self.name, [self.raw(k, version) for k in keys])
        return {k: pickle.loads(b) for k, b in zip(keys, blobs) if b is not None}

    def set(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        client.call("set", self.name, self.raw(key, version), pickle.dumps(value, 2), self.get_backend_timeout(timeout))

    def set_many(self, data, timeout=DEFAULT_TIMEOUT, version=None):
        client.call("set_many", self.name, [(self.raw(k, version), pickle.dumps(x, 2)) for k, x in data.items()],
                    self.get_backend_timeout(timeout))

    def add(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        return client.call("add", self.name, self.raw(key, version), pickle.dumps(value, 2), self.get_backend_timeout(timeout))

    def delete(self, key, version=None):
        client.call("delete", self.name, [self.raw(key, version)])

    def delete_many(self, keys, version=None):
        client.call("delete", self.name, [self.raw(k, version) for k in keys])

    def has_key(self, key, version=None):
        return client.call("get", self.name, self.raw(key, version)) is not None

    def clear(self):
        client.call("clear", self.name)


class RpcPlain(vbackends._Plain):
    """The same for an application without Django."""
    name = "main"

    def raw(self, key, version):
        raw = self.make_key(key, version)
        self.validate_key(raw)
        return raw

    def get(self, key, default=None, version=None):
        blob = client.call("get", self.name, self.raw(key, version))
        return default if blob is None else pickle.loads(blob)

    def set(self, key, value, timeout=None, version=None):
        client.call("set", self.name, self.raw(key, version), pickle.dumps(value, 2),
                    None if timeout is None else vbackends.clock.now + timeout)

    def delete(self, key, version=None):
        client.call("delete", self.name, [self.raw(key, version)])

    def clear(self):
        client.call("clear", self.name)
