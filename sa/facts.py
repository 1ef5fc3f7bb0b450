"""The program as clang type-checked it: loads the extractor's JSON and indexes it."""
import json
import os


class Node:
    __slots__ = ("k", "i", "l", "t", "a", "c", "p", "fn", "r")

    def __init__(self, d, fn, parent):
        self.k = d["k"]
        self.i = d.get("i", -1)
        self.l = d.get("l", 0)
        self.t = d.get("t", -1)
        self.r = d.get("r")
        self.a = d
        self.p = parent
        self.fn = fn
        self.c = [Node(x, fn, self) if x is not None else None for x in d.pop("c", ())]
        if "b" in d and self.k == "Var":
            for b in d["b"]:
                b["e"] = [Node(x, fn, self) for x in b.pop("c", ()) if x is not None]

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for x in reversed(n.c):
                if x is not None:
                    st.append(x)
            if n.k == "Var" and "b" in n.a:
                for b in n.a["b"]:
                    st.extend(b["e"])

    def role(self, r):
        for x in self.c:
            if x is not None and x.r == r:
                return x
        return None

    def roles(self, r):
        return [x for x in self.c if x is not None and x.r == r]

    def get(self, k, d=None):
        return self.a.get(k, d)

    def ancestors(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def __repr__(self):
        return "<%s:%d %s>" % (self.k, self.l, self.a.get("n", ""))


class Fn:
    """A function definition (or, with body None, a declaration only)."""

    def __init__(self, P, d, ext=False):
        self.P = P
        self.d = d
        self.id = d["id"]
        self.q = d["q"]
        self.key = d["key"]
        self.n = d["n"]
        self.file = d.get("deffile") or d.get("file")
        self.line = d.get("defline") or d.get("line")
        self.endline = d.get("endline", self.line)
        self.params = d["params"]
        self.ret = d["ret"]
        self.ext = ext
        self._body = None
        self._loaded = False
        self._inits = None
        self.nodes = None

    def _load(self):
        if self._loaded:
            return
        self._loaded = True
        b = self.d.get("body")
        self._body = Node(b, self, None) if b else None
        self._inits = []
        for x in self.d.get("inits", ()):
            y = dict(x)
            y["e"] = Node(x["e"], self, None) if x.get("e") else None
            self._inits.append(y)

    @property
    def body(self):
        self._load()
        return self._body

    @property
    def inits(self):
        self._load()
        return self._inits

    @property
    def has_body(self):
        return (not self.ext) and self.d.get("body") is not None

    def walk(self):
        for x in self.inits:
            if x["e"] is not None:
                yield from x["e"].walk()
        if self.body is not None:
            yield from self.body.walk()

    def get(self, k, d=None):
        return self.d.get(k, d)

    @property
    def const(self):
        return bool(self.d.get("const"))

    @property
    def cls(self):
        return self.d.get("cls")

    @property
    def clskey(self):
        return self.d.get("clskey", "")

    @property
    def sp(self):
        return self.d.get("sp")

    @property
    def where(self):
        return "%s:%s" % (self.file, self.line)

    def __repr__(self):
        return "<Fn %s>" % self.q


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.fns = {}
        self.defs = []
        for x in d["functions"]:
            f = Fn(self, x)
            self.fns[f.id] = f
            self.defs.append(f)
        for x in d["externs"]:
            if x["id"] not in self.fns:
                self.fns[x["id"]] = Fn(self, x, True)
        self.records = {}
        self.rec_by_key = {}
        for r in d["records"]:
            self.records[r["id"]] = r
            self.rec_by_key.setdefault(r["key"], []).append(r)
        self.enums = {e["id"]: e for e in d["enums"]}
        self.enum_by_key = {e["key"]: e for e in d["enums"]}
        self.vars = d["vars"]
        self.patterns = d["patterns"]
        self.by_key = {}
        for f in self.defs:
            self.by_key.setdefault(f.key, []).append(f)
        self.ext_by_key = {}
        for f in self.fns.values():
            if f.ext:
                self.ext_by_key.setdefault(f.key, []).append(f)
        # overriders
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get("over", ()) or ():
                self.overriders.setdefault(o, []).append(f)
        self.field_of = {}
        for r in self.records.values():
            for fd in r.get("fields", ()):
                self.field_of[fd["d"]] = (r, fd)

    # -- functions ---------------------------------------------------------------------------
    def one(self, key, pred=None):
        fs = [f for f in self.by_key.get(key, ()) if f.has_body and (pred is None or pred(f))]
        return fs[0] if fs else None

    def all(self, key):
        return [f for f in self.by_key.get(key, ()) if f.has_body]

    def methods(self, clskey, name=None):
        return [
            f
            for f in self.defs
            if f.clskey == clskey and f.has_body and (name is None or f.n == name)
        ]

    def targets(self, fid, virt=True):
        """Possible definitions a call to `fid` reaches (class-hierarchy analysis)."""
        out = []
        seen = set()
        st = [fid]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            f = self.fns.get(x)
            if f is not None:
                out.append(f)
            if virt:
                st.extend(g.id for g in self.overriders.get(x, ()))
        return out

    # -- types -------------------------------------------------------------------------------
    def ty(self, i):
        return self.types[i] if 0 <= i < len(self.types) else {"s": "?", "k": "other"}

    def tstr(self, i):
        return self.ty(i)["s"]

    def deref_type(self, i):
        t = self.ty(i)
        while t["k"] == "ref":
            i = t["p"]
            t = self.ty(i)
        return i

    def rec_of_type(self, i, through_ptr=True):
        t = self.ty(self.deref_type(i))
        if through_ptr and t["k"] == "ptr":
            t = self.ty(self.deref_type(t["p"]))
        if t["k"] == "rec":
            return self.records.get(t["rec"]), t
        return None, t

    def bases(self, rid):
        out = []
        st = [rid]
        while st:
            r = self.records.get(st.pop())
            if not r:
                continue
            for b in r.get("bases", ()):
                if b["id"] and b["id"] not in out:
                    out.append(b["id"])
                    st.append(b["id"])
        return out


def is_repo(f):
    return f is not None and not f.ext and f.file is not None and not f.file.startswith("/")
