"""I04: what a system or library call reports as failed is reported to the caller.

Per function of the instantiated library, a path-sensitive dataflow (loops summarised, conditions on statuses split) follows
 - the results of calls that report failure by value (reads, writes, decoders, closing of a written file),
 - FITS status variables (through helpers that take them by reference, and helpers that throw when they are not zero),
 - files opened for writing: after the last write they must be flushed or closed with the outcome tested,
 - input streams: what was read is used only after the stream's state was tested, a line loop's end is told from a read error.
A path on which an unreported failure (or an untested outcome) reaches a normal return is a violation.
"""
import re

from checks.I03 import CALLS, strip

# name: (comparison value on failure, on success); "short"/"full" against the requested count
STATUS = {
    "fread": ("short", "full"), "fwrite": ("short", "full"), "ftell": (-1, 1), "fflush": (-1, 0), "fclose": (-1, 0), "fputs": (-1, 1), "fputc": (-1, 1),
    "TIFFReadTile": (-1, 1), "TIFFReadScanline": (-1, 1), "TIFFReadEncodedStrip": (-1, 1), "TIFFReadEncodedTile": (-1, 1), "TIFFReadRawStrip": (-1, 1),
    "TIFFReadRGBAImage": (0, 1), "TIFFReadRGBAImageOriented": (0, 1), "TIFFReadRGBAStrip": (0, 1), "TIFFReadRGBATile": (0, 1), "TIFFReadDirectory": (0, 1), "TIFFSetDirectory": (0, 1),
    "TIFFWriteScanline": (-1, 1), "TIFFWriteEncodedStrip": (-1, 1), "TIFFWriteTile": (-1, 1), "TIFFWriteEncodedTile": (-1, 1), "TIFFWriteRawStrip": (-1, 1),
    "TIFFFlush": (0, 1), "TIFFFlushData": (0, 1), "TIFFWriteDirectory": (0, 1), "TIFFCheckpointDirectory": (0, 1),
    "tjDecompressHeader": (-1, 0), "tjDecompressHeader2": (-1, 0), "tjDecompressHeader3": (-1, 0), "tjDecompress2": (-1, 0), "tjDecompress": (-1, 0),
    "tjCompress2": (-1, 0), "tjCompress": (-1, 0), "tj3Compress8": (-1, 0), "tj3Decompress8": (-1, 0), "tj3DecompressHeader": (-1, 0),
}
FITS_NEED = r"^ff(clos|open|init|diskopen|dopn|dopen|iopn|iopen|tnopen|nopen|dkopn|dkinit|crim|crimll|gipr|giprll|gpxv|gpxvll|ppx|ppxll|pkey|ukey|uky\w*|pky\w*|pcom|phis|flus|delt|img\w*|gpv\w*|ppr\w*|gidm|gisz|gidt)$"
FLUSH = {"TIFFFlush", "TIFFWriteDirectory", "TIFFCheckpointDirectory", "fflush", "fclose"}


class Checked:
    """state: a set of worlds; a world maps things to statuses, and local truth values to what they are in it."""

    def __init__(self, A, fn, pending=None):
        self.A, self.P, self.fn = A, A.P, fn
        self.what, self.bad, self.tested = {}, {}, set()
        self.loops, self.tries = [], []
        self.clean_exit = None
        self.start = pending
        self.refs = set()
        self.uses = set()
        self.inl = []
        self.lambdas = {n.get("lam") for n in fn.walk() if n.k == "LambdaExpr"}
        self.mine = {n.get("d") for n in fn.walk() if n.k == "Var"} | {p["d"] for p in fn.params}

    # -- state
    @staticmethod
    def get(st, v):
        return {s for w in st for x, s in w if x == v}

    @staticmethod
    def set(st, v, *ss):
        out = set()
        for w in st:
            r = frozenset(q for q in w if q[0] != v)
            out |= {r | {(v, s)} for s in ss} if ss else {r}
        return frozenset(out)

    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return b if a is None else a
        r = a | b
        if len(r) > 96:
            r = frozenset(frozenset(q for q in w if not (isinstance(q[0], tuple) and q[0][0] == "b")) for w in r)
        return r

    def flag(self, v, how, line):
        self.bad.setdefault((v, how), line)

    # -- naming
    def obj(self, n):
        """The variable (or field of a variable) an expression stands for."""
        n = strip(n)
        while n is not None:
            if n.k == "UnaryOperator" and n.get("op") in ("&", "*"):
                n = strip(n.c[0])
            elif n.k == "CXXMemberCallExpr" and n.c[0] is not None and n.c[0].k == "MemberExpr" and n.c[0].get("n") == "get":
                n = strip(n.c[0].c[0])
            elif n.k == "ArraySubscriptExpr":
                n = strip(n.c[0])
            else:
                break
        if n is None:
            return None
        if n.k == "DeclRefExpr" and n.get("dk") in ("var", "parm", "slocal"):
            return self.A.same.get(n.get("d"), n.get("d"))
        if n.k == "MemberExpr" and n.get("dk") == "field" and n.c:
            b = strip(n.c[0])
            if b is not None and b.k == "DeclRefExpr":
                return self.A.same.get(("f", b.get("d"), n.get("d")), b.get("d"))
        return None

    def name(self, n):
        n = strip(n)
        while n is not None and n.c and n.k != "DeclRefExpr":
            n = strip(n.c[0])
        return n.get("n", "?") if n is not None else "?"

    def args(self, n):
        return n.c if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else n.c[1:]

    def fn_of(self, n):
        return self.P.fns.get(n.get("f")) if n is not None and n.k in CALLS else None

    def ty(self, n):
        return self.P.ty(n.t)["s"] if n is not None and n.t is not None else ""

    # -- leaving
    def throw(self, st):
        if st is not None and self.tries:
            self.tries[-1].append(st)

    def leave(self, st, line, failing=False):
        if st is None:
            return
        if self.inl:
            self.inl[-1] = self.join(self.inl[-1], st)
            return
        self.clean_exit = self.join(self.clean_exit, st)
        for v, s in {q for w in st for q in w}:
            if s == "pending" and (v in self.refs or not isinstance(v, tuple) and v not in self.mine):
                continue
            if s in ("pending", "dirty", "flushed", "lost", "half") or s == "failed" and not failing:
                self.flag(v, s, line)

    def failure_value(self, n):
        """Returns a value that says "failed": false, null, an empty string, a nonzero error code."""
        n = strip(n)
        if n is None:
            return False
        if n.k == "CXXBoolLiteralExpr":
            return n.get("v") in (0, False)
        if n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return True
        if n.k in ("IntegerLiteral",):
            return True
        if n.k == "UnaryOperator" and n.get("op") == "-":
            return True
        if n.k == "StringLiteral":
            return not n.get("v") and not n.get("s")
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "CXXScalarValueInitExpr"):
            a = [x for x in n.c if x is not None and x.k != "CXXDefaultArgExpr" and "allocator" not in self.ty(x)[:24]]
            return not a or len(a) == 1 and self.failure_value(a[0])
        if n.k == "DeclRefExpr" and n.get("n") == "nullopt":
            return True
        return False

    # -- expressions
    def ev(self, n, st):
        if n is None or st is None:
            return st
        k = n.k
        if k == "CXXThrowExpr":
            for x in n.c:
                st = self.ev(x, st)
            self.throw(st)
            return None
        if k == "LambdaExpr":
            # a status it captures may be set when it is called
            h = self.P.fns.get(n.get("lam"))
            if h is not None and h.body is not None:
                for x in h.walk():
                    g = self.fn_of(x)
                    if g is not None:
                        for j, a in enumerate(self.args(x)):
                            v = self.obj(a) if a is not None else None
                            if v in self.mine and j < len(g.params) and (re.match(r"^ff\w+$", g.n or "") and re.search(r"int \*", self.ty(a)) or self.A.fills(g, j)):
                                self.A.statuses.add(v)
                                st = self.set(st, v, "pending")
                                self.what[v] = g
                                self.uses.add((v, g.n, x.l))
            return st
        if k == "BinaryOperator" and n.get("op") in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
            t, f = self.cond(n, st)
            return self.join(t, f)
        if k == "ConditionalOperator":
            t, f = self.cond(n.c[0], st)
            return self.join(self.ev(n.c[1], t), self.ev(n.c[2], f))
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op") in ("=", "&=", "|=") and self.truth(n.c[0]):
            return self.decide(strip(n.c[0]).get("d"), n.c[1], st, n.get("op"))
        if k == "BinaryOperator" and n.get("op") == "=":
            return self.assign(n.c[0], n.c[1], st, n.l)
        if k in CALLS:
            return self.call(n, st, False)
        for x in n.c:
            st = self.ev(x, st)
        return st

    def assign(self, lhs, rhs, st, line):
        v = self.obj(lhs)
        c = self.status_call(rhs)
        if c is not None:
            st = self.call(c, st, True)
            if v is None or st is None:
                return st
            self.what[v] = self.fn_of(c)
            self.site(v, c)
            return self.set(st, v, "pending")
        if v is not None and strip(lhs).k == "DeclRefExpr" and self.get(st, v) & {"pending", "failed"} and v in self.A.statuses:
            # overwritten by something that does not depend on it
            if not any(self.obj(x) == v for x in rhs.walk() if x.k == "DeclRefExpr"):
                if "pending" in self.get(st, v):
                    self.flag(v, "pending", line)
                if "failed" in self.get(st, v) and strip(rhs).k == "IntegerLiteral":
                    self.what[("swallowed", v)] = self.what.get(v)
                    self.uses.add((("swallowed", v), "status", line))
                    st = self.set(st, ("swallowed", v), "failed")
                st = self.set(st, v)
        return self.ev(rhs, st)

    def status_call(self, n):
        n = strip(n)
        g = self.fn_of(n)
        if g is not None and not g.key.startswith("huira") and g.n in STATUS:
            return n
        return None

    def site(self, v, c):
        self.uses.add((v, self.fn_of(c).n, c.l))

    def call(self, n, st, used):
        g = self.fn_of(n)
        args = [a for a in self.args(n) if a is not None]
        head = n.c[:1] if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else []
        for x in list(head) + args:
            if x is None:
                continue
            if x.k == "MemberExpr" and x in head:
                for y in x.c:
                    st = self.ev(y, st)
            else:
                c = self.status_call(x)
                st = self.call(c, st, True) if c is not None else self.ev(x, st)
        if st is None or g is None:
            return st
        own = g.key.startswith("huira")
        name = g.n or ""
        # a value status nobody looks at
        if not own and name in STATUS and not used:
            o = self.obj(args[0]) if args and name in ("fclose", "fflush", "TIFFFlush", "TIFFWriteDirectory") else None
            if name in ("fclose", "fflush", "TIFFFlush", "TIFFWriteDirectory", "TIFFFlushData", "TIFFCheckpointDirectory"):
                f = self.obj(args[-1] if name in ("fwrite", "fread") else args[0])
                if f is not None and self.get(st, f) & {"dirty", "flushed"}:
                    st = self.set(st, f, "lost")
                    self.what[f] = g
                del o
                return st
            self.what[("call", n.l, name)] = g
            self.uses.add((("call", n.l, name), name, n.l))
            st = self.set(st, ("call", n.l, name), "pending")
        h = self.local(g)
        if h is not None:
            return self.inline(h, n, st)
        st = self.effects(n, g, args, st, own, used)
        if g.get("noreturn"):
            return None
        return st

    def bind(self, g, n):
        """Its parameters stand for what it is called with."""
        a = self.args(n)
        for p, x in zip(g.params, a[len(a) - len(g.params):]):
            v = self.obj(x) if x is not None else None
            self.A.same.pop(p["d"], None)
            if v is not None and self.P.ty(p["t"])["k"] in ("ref", "lref", "ptr"):
                self.A.same[p["d"]] = v

    def local(self, g):
        """A lambda of this function, called by its name: its body works on this function's variables."""
        return g if g is not None and g.id in self.lambdas and g.body is not None and len(self.inl) < 4 else None

    def inline(self, g, n, st):
        loops, self.loops = self.loops, []
        self.inl.append(None)
        self.bind(g, n)
        end = self.stmt(g.body, st)
        self.loops = loops
        return self.join(end, self.inl.pop())

    def effects(self, n, g, args, st, own, used):
        name = g.n or ""
        # opening
        if name == "TIFFOpen" or name in ("fopen", "fopen64"):
            return st
        # writes to a file object
        if not own:
            if name in ("fwrite", "fputs", "fputc", "fprintf", "png_init_io", "putc") or name.startswith("TIFFWrite") and name not in FLUSH or name.startswith("TIFFSetField"):
                for a in args:
                    f = self.obj(a)
                    if f in self.A.files and self.get(st, f):
                        st = self.set(st, f, "dirty")
            if name in FLUSH and used and args:
                f = self.obj(args[0])
                if f is not None and self.get(st, f):
                    st = self.set(st, f, *(("tested",) if f in self.A.files else ()))
            if re.match(r"^ff\w+$", name) and g.get("externc") is not False or name.startswith("fits_"):
                st = self.fits(n, g, args, st)
            if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr"):
                st = self.stream(n, g, args, st)
        else:
            # a helper that takes a status by reference leaves it pending here; one that takes it by value may check it
            for j, a in enumerate(args):
                if j >= len(g.params):
                    break
                v = self.obj(a)
                if v is None:
                    continue
                pt = self.P.ty(g.params[j]["t"])["s"]
                if self.A.fills(g, j):
                    if strip(a).k == "DeclRefExpr" and re.match(r"^int ?&$", pt):
                        st = self.set(st, v, "pending")
                        self.what[v] = g
                        self.uses.add((v, g.n, n.l))
                elif self.A.streams.get(v) == "in" and self.get(st, v) & {"pending"} and re.search(r"istream|ifstream|ios", pt):
                    if self.A.checks(g, j):
                        st = self.set(st, v)
                elif v in self.A.statuses and self.get(st, v) & {"pending", "failed"}:
                    c = self.A.checks(g, j)
                    if c:
                        self.tested.add(v)
                        st = self.set(st, v)
                if v in self.A.files and self.get(st, v) and self.A.writes(g, j):
                    st = self.set(st, v, "dirty")
                if re.search(r"fitsfile|fits_file", pt) and v in self.A.fits and self.get(st, v):
                    st = self.set(st, v, "dirty")
                if v in self.A.files | self.A.fits and self.get(st, v) and self.A.finishes(g, j):
                    st = self.set(st, v)
            if n.k == "CXXMemberCallExpr" and n.c[0] is not None and n.c[0].k == "MemberExpr" and n.c[0].c:
                v = self.obj(n.c[0].c[0])
                if v in self.A.files | self.A.fits and self.get(st, v) and self.A.finishes(g, None):
                    st = self.set(st, v)
        return st

    def fits(self, n, g, args, st):
        name = g.n
        s = args[-1] if args else None
        sv = self.obj(s) if s is not None and re.search(r"int \*", self.ty(s)) else None
        f = None
        for a in args[:1]:
            f = self.obj(a)
        if name in ("ffinit", "ffdkinit", "fits_create_file", "fits_create_diskfile") and f is not None:
            self.A.fits.add(f)
            st = self.set(st, f, "tested")
            self.uses.add((f, name, n.l))
        elif f in self.A.fits and self.get(st, f):
            if name in ("ffclos", "ffflus", "ffflsh", "fits_close_file", "fits_flush_file"):
                st = self.set(st, f) if sv is not None else self.set(st, f, "lost")
            elif re.match(r"^ff(p|u|cr|ib|d|m)\w*$", name):
                st = self.set(st, f, "dirty")
                self.what[f] = g
        if sv is not None:
            if re.match(FITS_NEED, name) or sv not in self.refs and re.match(r"^ff(g|thdu|p)", name):
                st = self.set(st, sv, "pending")
                self.what[sv] = g
                self.A.statuses.add(sv)
                self.uses.add((sv, name, n.l))
        return st

    def stream(self, n, g, args, st):
        if n.k == "CXXMemberCallExpr" and n.c[0] is not None and n.c[0].k == "MemberExpr" and n.c[0].c:
            o = self.obj(n.c[0].c[0])
            t = self.A.streams.get(o)
            if t == "out" and self.get(st, o) | ({"x"} if g.n in ("write", "put") else set()):
                if g.n in ("write", "put"):
                    st = self.set(st, o, "dirty")
                    self.uses.add((o, "write", n.l))
                elif g.n in ("close", "flush") and self.get(st, o) & {"dirty", "flushed"}:
                    st = self.set(st, o, "flushed")
            if t == "in" and g.n in ("read", "getline", "get"):
                st = self.set(st, o, "pending")
                self.what[o] = g
                self.uses.add((o, g.n, n.l))
            if t == "in" and g.n in ("gcount",):
                st = self.set(st, o)
        if n.k == "CXXOperatorCallExpr" and g.n in ("operator<<", "operator>>") and args:
            b = strip(args[0])
            while b is not None and b.k == "CXXOperatorCallExpr" and self.fn_of(b) is not None and self.fn_of(b).n == g.n:
                b = strip(b.c[1])
            o = self.obj(b) if b is not None else None
            t = self.A.streams.get(o)
            if t == "out":
                st = self.set(st, o, "dirty")
                self.uses.add((o, "<<", n.l))
        return st

    # -- conditions
    def cond(self, n, st):
        if n is None or st is None:
            return st, st
        if len(st) > 1:
            t = f = None
            for w in st:
                a, b = self.cond(n, frozenset([w]))
                t, f = self.join(t, a), self.join(f, b)
            return t, f
        m = strip(n)
        if m.k == "UnaryOperator" and m.get("op") == "!" or m.k == "CXXOperatorCallExpr" and self.fn_of(m) is not None and self.fn_of(m).n == "operator!":
            t, f = self.cond(m.c[-1], st)
            return f, t
        if m.k == "BinaryOperator" and m.get("op") in ("&&", "||"):
            t, f = self.cond(m.c[0], st)
            if m.get("op") == "&&":
                t2, f2 = self.cond(m.c[1], t)
                return t2, self.join(f, f2)
            t2, f2 = self.cond(m.c[1], f)
            return self.join(t, t2), f2
        if m.k == "CXXBoolLiteralExpr":
            return (st, None) if m.get("v") else (None, st)
        # stream state
        if m.k == "CXXMemberCallExpr" and m.c[0] is not None and m.c[0].k == "MemberExpr" and m.c[0].c:
            nm = m.c[0].get("n", "")
            b = strip(m.c[0].c[0])
            g = self.fn_of(b)
            if g is not None and g.n in ("getline", "read", "operator>>", "get", "write", "operator<<", "flush") or self.obj(b) in self.A.streams:
                if nm in ("operator bool", "good", "fail", "bad", "eof", "is_open") or nm.startswith("operator"):
                    return self.state_test(m, nm, b, g, st)
        h = self.local(self.fn_of(m))
        if h is not None and len(h.body.c) == 1 and h.body.c[0].k == "ReturnStmt" and h.body.c[0].c:
            self.inl.append(None)
            self.bind(h, m)
            t, f = self.cond(h.body.c[0].c[0], st)
            self.inl.pop()
            return t, f
        o = self.obj(m)
        if o in self.A.streams:
            return self.state_test(m, "operator bool", m, None, st)
        # a status by value
        t = self.status_test(m, st)
        if t is not None:
            return t
        # a local truth value
        if m.k == "DeclRefExpr" and self.truth(m):
            v = ("b", m.get("d"))
            ss = self.get(st, v)
            t = st if True in ss else self.set(st, v, True) if not ss else None
            f = st if False in ss else self.set(st, v, False) if not ss else None
            return t, f
        if m.k == "BinaryOperator" and m.get("op") in ("==", "!=", "<", ">", "<=", ">="):
            for x in m.c:
                st = self.ev(x, st)
            return st, st
        st = self.ev(n, st)
        return st, st

    def truth(self, n):
        n = strip(n)
        return n is not None and n.k == "DeclRefExpr" and n.get("d") in self.mine and n.t is not None and re.match(r"^(const )?bool$", self.ty(n)) is not None

    def decide(self, d, e, st, how="="):
        """A truth value gets the outcome of e."""
        v = ("b", d)
        t, f = self.cond(e, st)
        if how == "&=":
            return self.join(t, None if f is None else self.set(f, v, False))
        if how == "|=":
            return self.join(None if t is None else self.set(t, v, True), f)
        return self.join(None if t is None else self.set(t, v, True), None if f is None else self.set(f, v, False))

    def state_test(self, m, nm, b, g, st):
        o = self.obj(b)
        if g is not None and g.n in ("getline", "operator>>", "read", "write", "operator<<", "flush", "get"):
            st = self.ev(b, st)
            a = b.c[1:] if b.k != "CXXMemberCallExpr" else [b.c[0].c[0]]
            o = self.obj(a[0]) if a else None
            if st is None or self.A.streams.get(o) is None:
                return st, st
            if g.n == "getline" or g.n == "operator>>":
                self.uses.add((o, g.n, m.l))
                return self.set(st, o), self.set(st, o, "half")
        if o is None or st is None:
            return st, st
        ss = self.get(st, o)
        if nm == "is_open" or not ss:
            return st, st
        kind = self.A.streams.get(o)
        if kind == "in":
            if nm in ("bad", "fail", "eof"):
                if ss == {"half"}:
                    return (self.set(st, o, "failed"), self.set(st, o)) if nm == "bad" else (self.set(st, o), self.set(st, o, "failed")) if nm == "eof" else (st, st)
                if nm == "fail":
                    return self.set(st, o, "failed"), self.set(st, o)
                if nm == "bad":
                    return self.set(st, o, "failed"), st     # a short read is not "bad"
                return st, st
            if ss == {"half"}:
                return st, st
            return self.set(st, o), self.set(st, o, "failed")
        if "dirty" in ss:
            ok, no = st, self.set(st, o, "failed")
        else:
            ok, no = self.set(st, o), self.set(st, o, "failed")
        if nm == "bad" or nm == "fail":
            return no, ok
        if nm == "eof":
            return st, st
        return ok, no

    def status_test(self, m, st):
        """A condition on the status of a call, or on a variable that holds one."""
        sides = m.c if m.k == "BinaryOperator" and m.get("op") in ("==", "!=", "<", ">", "<=", ">=") else [m]
        for i, x in enumerate(sides):
            c = self.status_call(x)
            v = self.obj(x) if strip(x) is not None and strip(x).k == "DeclRefExpr" else None
            if c is None and (v is None or not self.get(st, v) & {"pending", "failed"} or v in self.A.streams or v in self.A.files):
                continue
            if c is not None:
                st = self.call(c, st, True)
                if st is None:
                    return None, None
                v = ("call", c.l, self.fn_of(c).n)
                self.what[v] = self.fn_of(c)
                self.site(v, c)
            g = self.what.get(v)
            fits = v in self.A.statuses
            fail, good = ("nonzero", 0) if fits or g is None or g.n not in STATUS else STATUS[g.n]
            self.tested.add(v)
            other = sides[1 - i] if len(sides) == 2 else None
            ft, gt = self.outcome(m, i, other, fail), self.outcome(m, i, other, good)
            clear = self.set(st, v)
            bad = self.set(st, v, "failed")
            if fits and not self.A.persist(g):
                bad = clear
            # which branch a failure takes, and which a success
            tb = fb = None
            if ft in (True, None):
                tb = self.join(tb, bad)
            if ft in (False, None):
                fb = self.join(fb, bad)
            if gt in (True, None):
                tb = self.join(tb, clear)
            if gt in (False, None):
                fb = self.join(fb, clear)
            return tb, fb
        return None

    def outcome(self, m, i, other, val):
        if other is None:
            return True if val == "nonzero" else None if isinstance(val, str) else bool(val)
        op = m.get("op")
        if i == 1:
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        o = strip(other)
        k = None
        if o is not None and o.k == "UnaryOperator" and o.get("op") == "-" and strip(o.c[0]).k == "IntegerLiteral":
            k = -int(strip(o.c[0]).get("v", 0))
        elif o is not None and o.k in ("IntegerLiteral", "CXXBoolLiteralExpr"):
            k = int(o.get("v", 0) or 0)
        elif o is not None and o.get("cv") is not None:
            try:
                k = int(o.get("cv"))
            except (TypeError, ValueError):
                k = None
        if val == "nonzero":
            return {"==": False, "!=": True, ">": True, "<": False, "<=": False, ">=": True}[op] if k == 0 else None
        if isinstance(val, str):
            if k is not None:
                # a count against a constant: only zero is certain
                if k == 0:
                    return {"==": None, "!=": None, ">": None, "<": False, "<=": None, ">=": True}[op] if val == "short" else {"==": False, "!=": True, ">": True, "<": False, "<=": False, ">=": True}[op]
                return None
            a, b = (0, 1) if val == "short" else (1, 1)
        else:
            if k is None:
                return None
            a, b = val, k
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

    # -- statements
    def declare(self, v, st):
        if v is None or v.k != "Var" or st is None:
            return st
        init, d = v.role("init"), v.get("d")
        if d in self.A.streams:
            return self.set(self.ev(init, st), d) if init is not None else st
        if init is None:
            return st
        c = self.status_call(init)
        if c is not None:
            st = self.call(c, st, True)
            if st is None:
                return None
            self.what[d] = self.fn_of(c)
            self.site(d, c)
            return self.set(st, d, "pending")
        w = self.opened(init)
        if w:
            st = self.ev(init, st)
            self.A.files.add(d)
            self.uses.add((d, "open", v.l))
            return None if st is None else self.set(st, d, "tested")
        e = strip(init)
        g = self.fn_of(e)
        if g is not None and re.match(r"^ff\w+$", g.n or "") and self.args(e) and re.search(r"int \*", self.ty(self.args(e)[-1])):
            sv = self.obj(self.args(e)[-1])
            if sv is not None:
                self.A.same[d] = sv
        # a flag computed from a status
        m = strip(init)
        if m is not None and re.match(r"^(const )?bool$", self.P.ty(v.t)["s"] if v.t is not None else ""):
            return self.decide(d, init, st)
        return self.ev(init, st)

    def opened(self, n):
        for x in n.walk():
            g = self.fn_of(x)
            if g is not None and g.n in ("fopen", "fopen64", "TIFFOpen") and not g.key.startswith("huira"):
                a = self.args(x)
                md = strip(a[1]) if len(a) > 1 else None
                s = (md.get("v") or md.get("s") or "") if md is not None else ""
                if not s or re.search(r"[wa+]", str(s)):
                    return True
        return False

    def loop(self, n, st):
        if n.role("init") is not None:
            st = self.stmt(n.role("init"), st)
        out = None
        for _ in range(2):
            self.loops.append(([], []))
            if n.k == "DoStmt":
                body = self.stmt(n.role("body"), st)
                br, co = self.loops.pop()
                for x in co:
                    body = self.join(body, x)
                nxt, f = self.cond(n.role("cond"), body)
            else:
                s0 = st
                if n.role("condvar") is not None:
                    s0 = self.declare(n.role("condvar"), st)
                if n.k == "CXXForRangeStmt":
                    t = f = s0
                else:
                    c = n.role("cond")
                    t, f = self.cond(c, s0) if c is not None else (s0, None)
                body = self.stmt(n.role("body"), t)
                br, co = self.loops.pop()
                for x in co:
                    body = self.join(body, x)
                nxt = self.ev(n.role("inc"), body) if n.role("inc") is not None else body
            out = self.join(out, f)
            for b in br:
                out = self.join(out, b)
            st = self.join(st, nxt)
        return out

    def stmt(self, n, st):
        if n is None or st is None:
            return st
        k = n.k
        if k == "CompoundStmt":
            for x in n.c:
                st = self.stmt(x, st)
            return st
        if k == "DeclStmt":
            for v in n.c:
                st = self.declare(v, st)
            return st
        if k == "IfStmt":
            if n.role("init") is not None:
                st = self.stmt(n.role("init"), st)
            if n.role("condvar") is not None:
                st = self.declare(n.role("condvar"), st)
            t, f = self.cond(n.role("cond"), st)
            return self.join(self.stmt(n.role("then"), t), self.stmt(n.role("else"), f))
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, st)
        if k == "ReturnStmt":
            e = n.c[0] if n.c else None
            failing = self.failure_value(e)
            if e is not None:
                c = self.status_call(e)
                b = self.P.ty(self.fn.ret)["s"] if self.fn.ret is not None else ""
                if c is not None:
                    st = self.call(c, st, True)
                elif b == "bool":
                    t, f = self.cond(e, st)
                    # the outcome itself is returned: it tells a failure if the two outcomes differ in it
                    bt, bf = [any("failed" == q for w in (x or ()) for _, q in w) for x in (t, f)]
                    self.leave(t, n.l, bt and not bf or failing)
                    self.leave(f, n.l, bf and not bt or failing)
                    return None
                else:
                    for x in e.walk():
                        v = self.obj(x) if x.k == "DeclRefExpr" else None
                        if v is not None and st is not None and self.get(st, v) & {"pending", "failed"} and v not in self.A.streams and v not in self.A.files:
                            st = self.set(st, v)
                    st = self.ev(e, st)
            self.leave(st, n.l, failing)
            return None
        if k == "BreakStmt":
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if k == "ContinueStmt":
            for l in reversed(self.loops):
                if l[1] is not None:
                    l[1].append(st)
                    break
            return None
        if k == "SwitchStmt":
            st = self.ev(n.role("cond"), st)
            self.loops.append(([], None))
            cur, body = None, n.role("body")
            for x in (body.c if body is not None and body.k == "CompoundStmt" else [body]):
                while x is not None and x.k in ("CaseStmt", "DefaultStmt"):
                    cur = self.join(cur, st)
                    x = x.c[-1] if x.c else None
                cur = self.stmt(x, cur)
            out = self.join(cur, st)
            for b in self.loops.pop()[0]:
                out = self.join(out, b)
            return out
        if k == "CXXTryStmt":
            self.tries.append([])
            a = self.stmt(n.c[0], st)
            caught = None
            for s in self.tries.pop():
                caught = self.join(caught, s)
            for x in n.c[1:]:
                if x is not None and caught is not None:
                    for y in x.c:
                        a = self.join(a, self.stmt(y, caught))
            return a
        if k == "NullStmt":
            return st
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            for x in n.c:
                st = self.stmt(x, st)
            return st
        return self.ev(n, st)

    def run(self):
        st = frozenset([frozenset()])
        for j, p in enumerate(self.fn.params):
            s = self.P.ty(p["t"])["s"]
            if re.match(r"^int ?[&*]$", s):
                self.refs.add(p["d"])
                self.A.statuses.add(p["d"])
        if self.start is not None:
            d = self.fn.params[self.start]["d"]
            self.A.statuses.add(d)
            st = self.set(st, d, "pending")
        st = self.stmt(self.fn.body, st)
        self.leave(st, self.fn.line)


class Facts:
    def __init__(self, P):
        self.P = P
        self.files, self.fits, self.statuses, self.streams, self.same = set(), set(), set(), {}, {}
        self._c, self._f, self._w = {}, {}, {}

    def persist(self, g):
        return g is None or bool(re.match(FITS_NEED, g.n or "")) or g.key.startswith("huira")

    def scan(self, f):
        """Streams, and pointer copies `q = obj.field` that stand for the same file."""
        for n in f.walk():
            if n.k == "Var" and n.t is not None:
                s = self.P.ty(n.t)["s"]
                if re.search(r"basic_ofstream|(?<![io])fstream", s) and "*" not in s:
                    self.streams[n.get("d")] = "out"
                elif re.search(r"basic_ifstream", s) and "*" not in s and not any(x.k == "StringLiteral" and re.match(r"/(proc|sys)/", str(x.get("v"))) for x in n.walk()):
                    self.streams[n.get("d")] = "in"
                elif self.P.ty(n.t)["k"] == "ptr" and re.search(r"fitsfile|TIFF|tiff|FILE", s) and n.role("init") is not None:
                    e = strip(n.role("init"))
                    if e is not None and e.k == "MemberExpr" and e.c and strip(e.c[0]) is not None and strip(e.c[0]).k == "DeclRefExpr":
                        self.same[n.get("d")] = strip(e.c[0]).get("d")
                    elif e is not None and e.k == "DeclRefExpr":
                        self.same[n.get("d")] = self.same.get(e.get("d"), e.get("d"))
                    elif e is not None and e.k == "CXXMemberCallExpr" and e.c[0].get("n") == "get" and e.c[0].c and strip(e.c[0].c[0]).k == "DeclRefExpr":
                        self.same[n.get("d")] = strip(e.c[0].c[0]).get("d")

    def fills(self, g, j):
        """Does parameter j (a status by reference or pointer) receive a status?"""
        key = (g.id, j)
        if key not in self._f:
            self._f[key] = False
            if g.has_body and g.body is not None and re.match(r"^int ?[&*]$", self.P.ty(g.params[j]["t"])["s"]):
                d = g.params[j]["d"]
                for n in g.walk():
                    if n.k in CALLS:
                        h = self.P.fns.get(n.get("f"))
                        a = n.c[1:]
                        for i, x in enumerate(a):
                            y = strip(x)
                            if y is not None and y.k == "UnaryOperator" and y.get("op") == "&":
                                y = strip(y.c[0])
                            if y is not None and y.k == "DeclRefExpr" and y.get("d") == d and h is not None:
                                if re.match(r"^ff\w+$", h.n or "") or h.has_body and i < len(h.params) and self.fills(h, i):
                                    self._f[key] = True
        return self._f[key]

    def finishes(self, g, j):
        """Does g always flush or close the file it is given (parameter j, or the one in its object), and throw if that fails?"""
        key = (g.id, j, "fin")
        if key in self._c:
            return self._c[key]
        self._c[key] = False
        if not g.has_body or g.body is None:
            return False
        src = {g.params[j]["d"]} if j is not None else set()
        vs = {n.get("d"): n for n in g.walk() if n.k == "Var" and n.role("init") is not None}

        def file(e, seen=()):
            return any(x.k == "DeclRefExpr" and (x.get("d") in src or x.get("d") in vs and x.get("d") not in seen and file(vs[x.get("d")].role("init"), (*seen, x.get("d"))))
                       or j is None and x.k == "CXXThisExpr" for x in e.walk())

        for n in g.walk():
            h = self.P.fns.get(n.get("f")) if n.k == "CallExpr" else None
            if h is None or len(n.c) < 2 or not file(n.c[1]):
                continue
            if re.match(r"^ff(clos|flus|flsh)$|^fits_(close|flush)_file$", h.n or "") or h.n in FLUSH:
                inside = [a for a in n.ancestors() if a.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "ConditionalOperator", "CXXCatchStmt", "LambdaExpr")
                          or a.k == "IfStmt" and not any(x is n for x in a.role("cond").walk()) and not file(a.role("cond"))]
                if not inside:
                    q = Checked(self, g)
                    q.run()
                    self._c[key] = not q.bad
        return self._c[key]

    def checks(self, g, j):
        """Does the function throw whenever its parameter j is not zero?"""
        key = (g.id, j)
        if key not in self._c:
            self._c[key] = False
            if g.has_body and g.body is not None and g.params[j]["n"]:
                if re.search(r"istream|ifstream|ios", self.P.ty(g.params[j]["t"])["s"]):
                    self.streams.setdefault(g.params[j]["d"], "in")
                q = Checked(self, g, j)
                q.run()
                d = g.params[j]["d"]
                self._c[key] = not any(v == d for (v, how), _ in q.bad.items())
        return self._c[key]

    def writes(self, g, j):
        key = (g.id, j)
        if key not in self._w:
            self._w[key] = not re.match(r"^const ", self.P.ty(g.params[j]["t"])["s"])
        return self._w[key]


HOW = {"pending": "its outcome is not tested before the function returns normally", "failed": "its failure is noticed but the function returns normally all the same",
       "dirty": "what was written is not flushed and tested before the function returns", "flushed": "whether the written data arrived is not tested before the function returns",
       "lost": "it is closed without looking at the outcome although data was written to it", "half": "the end of the loop is not told from a read error"}


def run(ctx):
    P = ctx.program()
    done = {}
    A = Facts(P)
    fns = [f for f in P.fns.values() if f.has_body and f.body is not None and f.key.startswith("huira")]
    for f in fns:
        A.scan(f)
    for f in fns:
        q = Checked(A, f)
        q.run()
        if not q.uses:
            continue
        yesno = f.ret is not None and P.ty(f.ret)["s"] == "bool" and not f.params
        dtor = f.get("sp") == "dtor"
        things = {}
        for v, n, l in q.uses:
            things.setdefault(v, set()).add((n, l))
        for v, us in sorted(things.items(), key=str):
            hows = sorted({(how, l) for (x, how), l in q.bad.items() if x == v}, key=str)
            if dtor:
                hows = [h for h in hows if h[0] not in ("pending", "failed")]      # nobody to report to: the function that wrote has to close
            if yesno:
                hows = []
            names = ", ".join(sorted({n for n, _ in us}))
            if dtor and not hows:
                continue
            key = (f.key, f.file, f.line, names, min(l for _, l in us))
            msg = "; ".join("%s (line %d): %s" % (names, min(l for _, l in us), HOW[h]) for h, _ in hows)
            if key not in done or hows and not done[key][0]:
                done[key] = (bool(hows), f.where, msg, "%s: %s" % (f.key, names))
    # libpng reports errors by jumping: the jump must have a target that reports
    def calls_to(f, pat):
        return [n for n in f.walk() if n.k == "CallExpr" and P.fns.get(n.get("f")) is not None and re.search(pat, P.fns[n.get("f")].n or "")]

    jumps = {f.id: [n.l for n in calls_to(f, r"^png_(read|write)_(info|image|row|rows|end|png|update_info)$")] for f in fns}
    # a helper that is given the libpng structure leaves jumping to whoever prepared it
    lends = {f.id for f in fns if any("png_struct" in P.ty(p["t"])["s"] or "png_structp" in P.ty(p["t"])["s"] for p in f.params) and not calls_to(f, r"setjmp|^png_create_")}
    for _ in range(4):
        for f in fns:
            for n in f.walk():
                if n.k == "CallExpr" and n.get("f") in lends and jumps.get(n.get("f")) and n.l not in jumps[f.id]:
                    jumps[f.id].append(n.l)
    for f in fns:
        if not jumps[f.id] or f.id in lends:
            continue
        sets = [n for n in f.walk() if n.k == "IfStmt" and any(x.k == "CallExpr" and P.fns.get(x.get("f")) is not None and "setjmp" in (P.fns[x.get("f")].n or "") for x in n.role("cond").walk())]
        ok = False
        for n in sets:
            q = Checked(A, f)
            end = q.stmt(n.role("then"), frozenset([frozenset()]))
            ok |= n.l < min(jumps[f.id]) and end is None and not q.bad and q.clean_exit is None
        done[(f.key, f.file, f.line, "png", 0)] = (not ok, f.where, "libpng's errors do not lead to an exception: no setjmp before line %d whose branch throws" % min(jumps[f.id]), "%s: libpng errors" % f.key)
    for key, (bad, where, msg, site) in sorted(done.items(), key=str):
        ctx.ob(not bad, "reported", where, msg, site)
        ctx.count("statuses")
        if not bad:
            ctx.sample(site)
    ctx.require(len(done) >= 8, "no calls that report failures are left")
