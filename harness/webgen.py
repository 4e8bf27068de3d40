"""Generators of templates with fragments, of views and of histories over them."""
from hypothesis import strategies as st


class Gen(object):
    def __init__(self, draw, nvars, nfns, prevent=0, boom=0, phased=0):
        self.draw, self.nvars, self.nfns = draw, nvars, nfns
        self.prevent, self.boom, self.phased = prevent, boom, phased
        self.ids = 0
        self.subs = {}
        self.budget = 30
        self.inphased = False

    def d(self, n):
        return self.draw(st.integers(0, n - 1))

    def pick(self, items):
        return items[self.d(len(items))]

    def body(self, depth, frag, loops, okvars, sub, size):
        """(nodes, variables shown outside of inner fragments); frag: is there an enclosing fragment."""
        draw = self.draw
        nodes, shown = [], set()
        for _ in range(size if size else 1 + self.d(3)):
            if self.budget <= 0:
                break
            self.budget -= 1
            kinds = ["text", "show", "frag", "frag"] if depth < 3 else ["text", "show", "show"]
            if self.nfns:
                kinds.append("fn")
            if depth < 3:
                kinds += ["with", "for", "if", "include", "block"]
            if self.prevent and frag:
                kinds += ["prevent"] * self.prevent
            if self.boom and not sub:
                kinds.append("boom")
            if loops and okvars:
                kinds.append("lvar")
                if frag:
                    kinds.append("addl")
            if frag:
                kinds.append("addv")
            if self.inphased and not sub:
                kinds.append("mark")
            k = self.pick(kinds)
            if sub == "P" and k in ("show", "if", "boom"):
                k = "frag" if depth < 3 else "text"
            if k == "text":
                nodes.append(["text", self.pick(["a", "b ", "", "<i>", "é"])])
            elif k in ("show", "boom"):
                i = self.d(self.nvars)
                self.cover(nodes, shown, i, frag, sub)
                nodes.append(["show", i] if k == "show" else ["boom", i, 3])
                if k == "show" and self.d(5) == 0:
                    nodes.append(["text", "-"])
            elif k == "lvar":
                nodes.append(["lvar", 1 + self.d(loops)])
            elif k == "addl":
                nodes.append(["addl", 1 + self.d(loops)])
            elif k == "mark":
                nodes.append(["mark", self.d(self.nvars)])
            elif k == "addv":
                nodes.append(["addv", self.d(self.nvars)])
            elif k == "fn":
                nodes.append(["fn", self.d(self.nfns)])
            elif k == "prevent":
                i = self.d(self.nvars)
                if self.d(3):
                    self.cover(nodes, shown, i, frag, sub)
                    nodes.append(["if", i, self.d(3), [["prevent"]], []])
                else:
                    nodes.append(["prevent"])
            elif k == "frag":
                nodes.append(self.frag(depth, loops, okvars, sub, not frag))
            elif k == "with":
                b, sh = self.body(depth + 1, frag, loops, okvars, sub, 0)
                nodes.append(["with", b])
                shown |= sh
            elif k == "for":
                if loops >= 2:
                    continue
                b, sh = self.body(depth + 1, frag, loops + 1, True if not loops else okvars, sub, 0)
                nodes.append(["for", self.pick([0, 1, 2, 2, 3]), b])
                shown |= sh
            elif k == "if":
                i = self.d(self.nvars)
                self.cover(nodes, shown, i, frag, sub)
                b, sh = self.body(depth + 1, frag, loops, okvars, sub, 0)
                b2, sh2 = self.body(depth + 1, frag, loops, okvars, sub, 0) if self.d(2) else ([], set())
                nodes.append(["if", i, self.d(3), b, b2])
                shown |= sh | sh2
            elif k == "include":
                nodes.append(["include", self.include("F" if frag else "P")])
            elif k == "block":
                if sub:
                    continue
                self.ids += 1
                name = "b%d" % self.ids
                b, sh = self.body(depth + 1, frag, loops, okvars, sub, 0)
                nodes.append(["block", name, b])
                shown |= sh
        return nodes, shown

    def cover(self, nodes, shown, i, frag, sub):
        """Variable i is shown here: its tag comes with it now, or from the fragment's arguments later."""
        if sub == "F" or (frag and self.d(4) == 0):
            nodes.append(["add", ["T%d" % i], self.pick([0, 1, 2])])
        else:
            shown.add(i)

    def include(self, kind):
        made = [n for n in self.subs if n.startswith(kind) and self.subs[n] is not None]
        if made and self.d(2):
            return self.pick(made)
        self.ids += 1
        name = "%s%d" % (kind, self.ids)
        self.subs[name] = None
        b, sh = self.body(2, kind == "F", 0, False, kind, 0)
        self.subs[name] = {"body": b}
        return name

    def frag(self, depth, loops, okvars, sub, outermost):
        self.ids += 1
        s = {"id": "f%d" % self.ids, "tags": [], "form": self.d(3), "kw": None}
        if loops:
            s["looped"] = bool(self.d(4)) or False
        ok = bool(loops and okvars and s.get("looped"))
        if self.phased and outermost and not sub and self.d(2):
            s["phased"] = self.pick([1, 2, 2])
            self.inphased = True
        if self.d(6) == 0:      # the name is a variable, a number, ...
            s["nform"] = 1 + self.d(4)
        body, shown = self.body(depth + 1, True, loops, ok, sub, 0)
        if outermost and not sub:
            self.inphased = False
        if self.d(4) == 0:
            s["kw"] = []
            s["kwform"] = self.pick(["list", "tuple", "set"])
        adds = []
        for i in sorted(shown):
            w = self.d(3)
            if w == 0:
                s["tags"].append("T%d" % i)
            elif w == 1:
                if s["kw"] is None:
                    s["kw"] = []
                    s["kwform"] = self.pick(["list", "tuple", "set"])
                s["kw"].append("T%d" % i)
            else:
                adds.append("T%d" % i)
        if adds:
            body.insert(self.d(len(body) + 1), ["add", adds, self.pick([0, 1, 2])])
        if self.d(3) == 0:
            s["tags"].append("X%d" % self.d(5))
        if self.d(6) == 0:
            s["vtag"] = self.d(self.nvars)
        if ok and self.d(3) == 0:
            s["ltag"] = 1 + self.d(loops)
        if self.d(4) == 0:
            s["timeout"] = self.pick([5, 60, 600, 0])
            s["tvar"] = self.d(2)
            if self.boom and not sub and self.d(4) == 0:
                s["timeout"] = "bad"
                s["tvar"] = self.d(5)
        elif loops and self.d(2):
            s["tloop"] = 1 + self.d(loops)
        if self.d(8) == 0:
            s["nocache"] = 1 + self.d(2)
        return ["frag", s, body]

    def template(self, size=0):
        """(template, variables shown outside of fragments)"""
        b, shown = self.body(0, False, 0, False, "", size)
        return {"body": b, "extend": self.d(4) == 0}, shown


# tags which are not those of data: of single fragments, of loop variables, of values
OTHER = ["X0", "X1", "X2", "X3", "X4", "T0", "Y0", "Y1", "Y2", "V0", "V1"]


def frag_ids(templates):
    import webast
    return sorted({n[1]["id"] for t in templates.values() for n in webast.walk(t["body"]) if n[0] == "frag"})


@st.composite
def fns(draw, nvars, n, aliases=("default",)):
    return [{"var": draw(st.integers(0, nvars - 1)), "form": draw(st.integers(0, 3)), "ver": draw(st.integers(0, 4)) == 0, "alias": draw(st.sampled_from(aliases))} for _ in range(n)]
