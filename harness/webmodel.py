"""Reference model of fragment and page caching; judges the answers of worker/webrun.py.

Entries whose presence the properties leave open are "unsure": the model follows what the code did.
Bad(category, text) is raised at the first deviation.
"""
import hashlib
import re

import webast
from webast import Boom

STEP = 0.01
CT = "text/html; charset=utf-8"


class Bad(Exception):
    def __init__(self, cat, text):
        Exception.__init__(self, text)
        self.cat = cat


class Frame(object):
    def __init__(self):
        self.tags, self.own, self.prevent = set(), set(), False


class Model(object):
    def __init__(self, case):
        self.case, self.cfg = case, case["cfg"]
        self.data = list(case["data"])
        self.frags, self.fns, self.pages, self.hdrs = {}, {}, {}, {}
        self.now = 0.0
        self.thread, self.active = 0, []
        self.open = {}                # transactions of the threads: depth, invalidated tags
        self.tie = set()              # tags of transactions finished at this very moment
        self.calls = {}
        self.ncalls = 0
        self.labels = set()
        self.stats = {"served": 0, "executed": 0, "refreshed": 0, "pserved": 0, "pexec": 0, "prefreshed": 0, "prevented": 0, "refused": 0}
        self.gone = set()             # keys of entries removed by an invalidation

    # state

    @property
    def tx(self):
        return self.open.setdefault(self.thread, [0, set()])[0]

    @tx.setter
    def tx(self, depth):
        self.open.setdefault(self.thread, [0, set()])[0] = depth

    @property
    def txtags(self):
        return self.open.setdefault(self.thread, [0, set()])[1]

    @txtags.setter
    def txtags(self, tags):
        self.open.setdefault(self.thread, [0, set()])[1] = tags

    def live(self, e):
        return e is not None and (e["exp"] is None or self.now < e["exp"])

    def drop(self, tags):
        tags = set(tags)
        for name in ("frags", "fns", "pages"):
            store = getattr(self, name)
            for k in [k for k, e in store.items() if e["tags"] & tags]:
                del store[k]
                self.gone.add((name, k))
        for e in self.hdrs.values():
            if e["tags"] & tags:
                e["sure"] = False
        if self.tx:
            self.txtags |= tags

    def release(self):
        for store in (self.frags, self.fns, self.pages, self.hdrs):
            for e in store.values():
                if e["tags"] & self.txtags:
                    e["sure"] = False
        self.tie |= self.txtags
        self.txtags = set()
        self.tx = 0

    def write(self, w):
        self.data[w[0]] = w[1]
        mode = w[2] if len(w) > 2 else 0
        outer = self.tx
        if mode:
            self.tx = 1
        self.drop(["T%d" % w[0]])
        if mode and not outer:
            self.release()
        elif mode:
            self.tie |= {"T%d" % w[0]}
            self.tx = outer

    def entry(self, tags, timeout, **kw):
        unsure = self.txtags | (self.tie if self.cfg.get("iso", "READ COMMITTED") != "READ COMMITTED" or self.tx else set())
        return dict(kw, tags=set(tags), exp=None if timeout is None else self.now + timeout, sure=not (set(tags) & unsure))

    # log of what was executed

    def peek(self):
        return self.log[self.pos] if self.pos < len(self.log) else None

    def decide(self, kind, key, e):
        """Was the thing computed (True) or served?"""
        item = [kind, key]
        ran = self.peek() == item
        if ran:
            self.pos += 1
        name = {"frag": "fragment %s" % key, "fn": "cached value %s" % key}[kind]
        if self.live(e) and e["sure"] and ran:
            raise Bad(kind + "-again", "%s is computed again although none of its tags was invalidated (tags %s)" % (name, sorted(e["tags"])))
        if not self.live(e) and not ran:
            raise Bad(kind + "-kept", "%s is served from the cache, though %s" % (
                name, "its storing was prevented or has failed, or it has been invalidated or is expired"))
        return ran

    def aside(self):
        """What another thread did at this moment."""
        item = self.peek()
        if not item or item[0] != "side":
            return
        saved = self.log, self.pos, self.reqtags, self.prevented
        self.labels.add("interleaved")
        self.stats["aside"] = self.stats.get("aside", 0) + 1
        try:
            self.step(item[1], item[2])
        finally:
            self.log, self.pos, self.reqtags, self.prevented = saved
        self.pos += 1

    def render(self, nodes, loops, fr):
        out = []
        for n in nodes:
            k = n[0]
            if k == "text":
                out.append(n[1])
            elif k == "show":
                out.append(str(self.data[n[1]]))
            elif k == "mark":
                out.append("[[%d]]" % n[1])
            elif k == "lvar":
                out.append(str(loops[n[1] - 1]))
            elif k == "fn":
                f = self.case["fns"][n[1]]
                key = str(n[1])
                e = self.fns.get(key)
                if self.decide("fn", key, e):
                    self.aside()
                    e = self.fns[key] = self.entry({"T%d" % f["var"]}, 600, value=self.data[f["var"]])
                fr.tags |= e["tags"]
                out.append(str(e["value"]))
            elif k == "frag":
                out.append(self.fragment(n, loops, fr))
            elif k == "add":
                fr.own |= set(n[1])
            elif k == "addv":           # a tag made of current data
                fr.own.add("V%s" % self.data[n[1]])
            elif k == "addl":           # a tag made of a loop variable
                fr.own.add("Y%s" % loops[n[1] - 1])
            elif k == "prevent":
                fr.prevent = True
            elif k == "with":
                out.append(self.render(n[1], loops, fr))
            elif k == "for":
                for i in range(n[1]):
                    out.append(self.render(n[2], loops + (i,), fr))
            elif k == "if":
                out.append(self.render(n[3] if self.data[n[1]] > n[2] else n[4], loops, fr))
            elif k == "include":
                out.append(self.render(self.case["templates"][n[1]]["body"], (), fr))
            elif k == "block":
                out.append(self.render(n[2], loops, fr))
            elif k == "switch":
                self.aside()
            elif k == "boom":
                if self.data[n[1]] == n[2]:
                    raise Boom()
        return "".join(out)

    def fragment(self, n, loops, fr):
        s = n[1]
        key = ".".join([s["id"]] + [str(i) for i in (loops if s.get("looped") else ())])
        if s.get("timeout") == "bad":
            raise webast.BadTimeout()
        e = self.frags.get(key)
        if not self.decide("frag", key, e):
            self.stats["served"] += 1
            fr.tags |= e["tags"]
            if s.get("phased") == 2:
                self.labels.add("second_pass_of_cached")
            return webast.phase(s, e["text"], self.data)
        self.stats["executed"] += 1
        if ("frags", key) in self.gone:
            self.stats["refreshed"] += 1
        self.frags.pop(key, None)
        sub = Frame()
        sub.own = set(s["tags"]) | set(s.get("kw") or ())
        if s.get("vtag") is not None:
            sub.own.add("V%s" % self.data[s["vtag"]])
        if s.get("ltag") is not None:
            sub.own.add("Y%s" % loops[s["ltag"] - 1])
        text = self.render(n[2], loops, sub)
        sub.tags |= sub.own
        fr.tags |= sub.tags
        self.reqtags |= sub.own
        if sub.prevent:
            fr.prevent = True
            self.prevented = True
            self.stats["prevented"] += 1
        else:
            self.frags[key] = self.entry(sub.tags, webast.timeout(s, loops), text=text)
        return webast.phase(s, text, self.data)

    # operations

    def run(self, out):
        for i, (op, r) in enumerate(zip(self.case["ops"], out)):
            try:
                self.step(op, r)
            except Bad as e:
                e.args = ("operation %d %s: %s" % (i, op, e.args[0]),)
                raise
            self.now += STEP
            self.tie = set()

    def step(self, op, r):
        self.log, self.pos = r["log"], 0
        if r.get("error"):
            raise Bad("error", "%s" % r["error"])
        outer, threads = self.thread, self.cfg.get("threads")
        if threads:             # as the worker does
            self.thread = op.get("s", 0) % threads
            while self.thread in self.active:
                self.thread = (self.thread + 1) % threads
        self.active.append(self.thread)
        getattr(self, "op_" + op["o"])(op, r)
        if self.pos < len(self.log):
            raise Bad("frag-again", "computed unexpectedly: %s" % (self.log[self.pos:],))
        self.active.pop()
        self.thread = outer

    def op_set(self, op, r):
        self.write(op["w"])

    def op_inv(self, op, r):
        self.drop(op["tags"])

    def op_tick(self, op, r):
        self.now += op["dt"]

    def op_begin(self, op, r):
        self.tx += 1

    def op_finish(self, op, r):
        self.tx = max(self.tx - 1, 0)
        if not self.tx:
            self.release()
        else:
            for store in (self.frags, self.fns, self.pages, self.hdrs):
                for e in store.values():
                    if e["tags"] & self.txtags:
                        e["sure"] = False

    def op_close(self, op, r):
        self.release()

    def start(self):
        self.reqtags, self.prevented = set(), False

    def op_render(self, op, r):
        self.start()
        body = self.case["templates"][op["t"]]["body"]
        try:
            want = webast.fresh(self.case, body, self.data)
        except Boom:
            want = None
        except webast.BadTimeout:
            if (r.get("refused") or [None])[0] != "TemplateSyntaxError":
                raise Bad("frag-stale", "the timeout of a fragment is not a number, the result is %s" % r)
            try:
                self.render(body, (), Frame())
            except webast.BadTimeout:
                return
        if r.get("refused"):
            raise Bad("error", "rendering raises %s" % r["refused"])
        got = r.get("text")
        if got is not None and want is not None and got != want:
            raise Bad("frag-stale", "rendering gives %r, without caching it is %r" % (got, want))
        try:
            self.render(body, (), Frame())
        except Boom:
            if not r.get("raised"):
                raise Bad("frag-stale", "rendering gives %r, without caching it raises" % got)
        else:
            if r.get("raised"):
                raise Bad("frag-stale", "rendering raises, without caching it gives %r" % want)
        if op.get("req"):
            if not self.reqtags <= set(r["tags"]):
                raise Bad("req-tags", "tags of the rendered fragments %s, in the request %s" % (sorted(self.reqtags), r["tags"]))
            if self.prevented and r["update"]:
                raise Bad("page-prevent", "caching was prevented by the template, the page will be stored")
            if not self.prevented and not r["update"]:
                raise Bad("page-prevent", "caching was not prevented, the page will not be stored")

    # pages

    def site(self, spec):
        """(alias, prefix, default timeout) of the view, or None when it is not cached."""
        c = self.cfg
        if c["site"] == "decorator":
            if spec.get("bare"):
                return None
            t = spec.get("timeout")
            return spec.get("alias") or "default", spec.get("prefix") or "", c.get("seconds", 600) if t is None else t
        return c.get("alias", "default"), c.get("prefix", ""), c.get("seconds", 600)

    def vary(self, spec, op):
        names = sorted(set(h.strip().lower() for h in re.split(r"\s*,\s*", spec.get("vary") or "") if h.strip()))
        hdr = {k.lower(): v for k, v in (op.get("hdr") or {}).items()}
        if self.cfg.get("i18n") or self.cfg.get("l10n"):
            names = [h for h in names if h != "accept-language"]
        return tuple((h, hdr.get(h)) for h in names)

    def expected_headers(self, spec, b, n):
        h = {"X-Call": str(n), "Content-Type": CT}
        h.update(spec.get("headers") or {})
        if b.get("cc"):
            h["Cache-Control"] = b["cc"]
        if spec.get("vary"):
            h["Vary"] = spec["vary"]
        return h

    def check_response(self, spec, b, n, r, stored):
        hs = dict(r["headers"])
        if r["status"] == 500 and b.get("status", 200) != 500:
            raise Bad("error", "the response is an error, the view gives one of status %s" % b.get("status", 200))
        want = self.expected_headers(spec, b, n)
        if self.cfg.get("etags"):
            etag = hs.pop("ETag", None)
            own = want.pop("ETag", None)
            if own and etag != own:
                raise Bad("page-headers", "the ETag of the view was %s, it has become %s" % (own, etag))
            if not own and etag != '"%s"' % hashlib.md5(r["text"].encode("utf-8")).hexdigest() and (etag or stored):
                raise Bad("page-headers", "the ETag of a response %s is %s" % (r["text"], etag))
        if hs != want:
            raise Bad("page-headers", "headers of the response are %s, of the view %s" % (sorted(hs.items()), sorted(want.items())))
        if r["status"] != b.get("status", 200):
            raise Bad("page-headers", "status %s, of the view %s" % (r["status"], b.get("status", 200)))

    def op_req(self, op, r):
        self.start()
        spec = self.case["views"][op["view"]]
        b = dict(spec.get("behave") or {}, **(op.get("behave") or {}))
        site = self.site(spec)
        method = op.get("method", "GET")
        ran = bool(self.log) and self.log[0][0] == "view"
        base = None
        txmw = self.cfg.get("txmw") and not self.cfg.get("second")       # it handles the default alias only
        if txmw:
            self.tx += 1
        if site:
            base = (site[0], site[1], op.get("host"), op.get("url", ""), op.get("lang") if self.cfg.get("i18n") else None)
            vals = self.vary(spec, op)
            cands = [self.pages.get((base, vals, m)) for m in (["GET", "HEAD"] if method == "HEAD" else ["GET"] if method == "GET" else [])]
            cands = [e for e in cands if self.live(e)]
            h = self.hdrs.get(base)
        else:
            cands, h = [], None
        if op.get("short") and self.cfg["site"] == "split":     # answered by a middleware between the parts
            if (r["text"], r["status"], r["headers"]) != ("gate", 200, [["Content-Type", CT]]):
                raise Bad("page-headers", "the response %s is not the one of the middleware which answered" % r)
            self.labels.add("short")
        elif not ran:
            self.served(op, r, spec, method, base, cands, h)
        else:
            if cands and self.live(h) and h["sure"] and any(e["sure"] for e in cands):
                raise Bad("page-again", "the view is called although the page is cached and none of its tags was invalidated (%s)" % (
                    sorted(cands[0]["tags"]),))
            if site and any(k in self.gone for k in [("pages", (base, vals, m)) for m in ("GET", "HEAD")]):
                self.stats["prefreshed"] += 1
            self.executed(op, r, spec, b, method, site, base)
        if txmw or not op.get("noend"):      # the middleware and the end of a request finish all transactions
            self.release()

    def served(self, op, r, spec, method, base, cands, h):
        n = dict(r["headers"]).get("X-Call")
        info = self.calls.get(int(n)) if n else None
        if info is None:
            raise Bad("page-wrong" if r["status"] != 500 else "error", "the response %s comes from no call of the view" % r)
        text = "the page made by call %s of a view (%s) is served" % (n, info["op"])
        if method not in ("GET", "HEAD"):
            raise Bad("page-ineligible", "%s, the method is %s" % (text, method))
        if info["prevented"]:
            raise Bad("page-prevented", "%s, its caching was prevented" % text)
        if not info["eligible"]:
            raise Bad("page-ineligible", "%s, it must not be stored" % text)
        if info["base"] != base:
            raise Bad("page-wrong", "%s for another URL, host, language or prefix" % text)
        if info["vary"] != self.vary(spec, op):
            raise Bad("page-wrong", "%s for other values of the headers it varies by: %s" % (text, info["vary"]))
        if method == "GET" and info["op"].get("method") == "HEAD":
            raise Bad("page-wrong", "%s, it was made for HEAD" % text)
        if not any(e["n"] == int(n) for e in cands):
            e = info["entry"]
            if e["exp"] is not None and self.now >= e["exp"]:
                raise Bad("page-expired", "%s after its timeout" % text)
            raise Bad("page-stale", "%s although one of its tags (%s) was invalidated since" % (text, sorted(e["tags"])))
        if spec.get("body"):
            want = webast.fresh(self.case, self.case["templates"][spec["body"]]["body"], self.data)
            if r["text"].split("|")[0] != want:
                raise Bad("page-stale", "%s with the content %r, now it is %r" % (text, r["text"], want))
        if {k: r[k] for k in ("text", "status", "headers", "cookies")} != info["resp"]:
            raise Bad("page-differs", "%s, but it is not what was stored: %s, was %s" % (
                text, {k: r[k] for k in info["resp"]}, info["resp"]))
        self.stats["pserved"] += 1

    def executed(self, op, r, spec, b, method, site, base):
        self.ncalls += 1
        n = self.ncalls
        assert self.log[0][1] == str(n), (self.log, n)
        self.pos = 1
        self.stats["pexec"] += 1
        self.aside()
        if op.get("write"):
            self.write(op["write"])
        if b.get("raise"):
            if r["status"] != 500:
                raise Bad("page-headers", "the view raises, the status is %s" % r["status"])
            return
        fr = Frame()
        text = ""
        if spec.get("body"):
            body = self.case["templates"][spec["body"]]["body"]
            try:
                want = webast.fresh(self.case, body, self.data)
            except Boom:
                want = None
            got = r["text"].split("|")[0]
            if want is not None and r["status"] != 500 and got != want:
                raise Bad("frag-stale", "the view gives %r, without caching it is %r" % (got, want))
            try:
                text = self.render(body, (), fr)
            except Boom:
                if r["status"] != 500:
                    raise Bad("frag-stale", "the view gives %r, without caching it raises" % got)
                return
            if r["status"] == 500:
                raise Bad("frag-stale", "the view raises, without caching it gives %r" % want)
        eligible = site is not None and method in ("GET", "HEAD") and b.get("status", 200) == 200 and not b.get("stream")
        if self.cfg.get("anon") and b.get("session") and op.get("auth") and not op.get("nosession"):
            eligible = False
        timeout = site[2] if site else None
        m = re.search(r"(?:^|[,\s])max-age=(\d+)", b.get("cc") or "")
        if m:
            timeout = int(m.group(1))
        if timeout == 0:
            eligible = False
        prevented = bool(b.get("prevent") or self.prevented)
        self.check_response(spec, b, n, r, eligible and not prevented)
        tags = set(spec.get("tags") or ()) if self.cfg["site"] == "decorator" or not self.cfg.get("plainmw") else set()
        tags |= fr.tags | self.reqtags | set(spec.get("addtags") or ())
        info = {"op": op, "prevented": prevented, "eligible": eligible, "base": base, "vary": self.vary(spec, op),
                "resp": {k: r[k] for k in ("text", "status", "headers", "cookies")}}
        self.calls[n] = info
        if eligible and not prevented:
            e = self.entry(tags, timeout, n=n)
            info["entry"] = e
            self.pages[(base, info["vary"], method)] = e
            self.hdrs[base] = self.entry(tags, timeout)
        else:
            self.stats["refused"] += 1
            info["entry"] = None


def judge(case, out, cats):
    """(message, model): only deviations of the given categories count; others end the case."""
    m = Model(case)
    try:
        m.run(out["out"])
    except Bad as e:
        if e.cat in cats:
            return e.args[0], m
        m.labels.add("other:" + e.cat)
    return None, m
