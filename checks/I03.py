"""I03: what is acquired is released, exactly once, on every way out.

A typestate analysis of the raw resources the library gets from C libraries (files, decoders, FFT plans and buffers,
Embree scenes and geometries, memory): each function of the instantiated library that holds one in a variable is followed
along all its paths, including those on which a call throws (may-throw summaries of G06; running out of memory aside)
and through its loops.  A variable's state is a set of {null, open, released}, refined by null tests.  Handing the resource
to an owner (constructor, smart pointer, guard closure, field, return) ends the obligation here.  For classes that keep one in a
field, the destructor must release it, no copy may share it, and a constructor must not throw while it holds it.
"""
import re

from checks.G06 import Throws

STRIP = ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXStaticCastExpr",
         "CXXFunctionalCastExpr", "CStyleCastExpr", "ConstantExpr", "CXXReinterpretCastExpr", "CXXBindTemporaryExpr")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")

# what returns a resource, and what releases it
ACQUIRE = [
    (r"^f(re)?open(64)?$|^tmpfile$|^fdopen$", "file"), (r"^popen$", "pipe"),
    (r"^png_create_read_struct", "png reader"), (r"^png_create_write_struct", "png writer"),
    (r"^tj3?Init", "TurboJPEG handle"), (r"^tj3?Alloc$", "TurboJPEG buffer"),
    (r"^TIFF(Client|Fd)?Open", "TIFF"), (r"^_TIFFmalloc$", "TIFF buffer"),
    (r"^fftwf?_(alloc|malloc)", "FFTW buffer"), (r"^fftwf?_plan_dft|^fftwf?_plan_", "FFTW plan"),
    (r"^rtcNewScene$", "Embree scene"), (r"^rtcNewGeometry$", "Embree geometry"), (r"^rtcNewDevice$", "Embree device"),
    (r"^curl_easy_init$", "curl handle"), (r"^(std::)?(m|c|re)alloc$|^strdup$", "memory"), (r"^opendir$", "directory"),
    (r"^rtcNewBuffer$|^rtcNewSharedBuffer$", "Embree buffer"),
]
RELEASE = [
    (r"^fclose$", "file"), (r"^pclose$", "pipe"), (r"^png_destroy_read_struct$", "png reader"), (r"^png_destroy_write_struct$", "png writer"),
    (r"^tj3?Destroy$", "TurboJPEG handle"), (r"^tj3?Free$", "TurboJPEG buffer"), (r"^TIFF(Close|Cleanup)$", "TIFF"), (r"^_TIFFfree$", "TIFF buffer"),
    (r"^fftwf?_free$", "FFTW buffer"), (r"^fftwf?_destroy_plan$", "FFTW plan"), (r"^rtcReleaseScene$", "Embree scene"),
    (r"^rtcReleaseGeometry$", "Embree geometry"), (r"^rtcReleaseDevice$", "Embree device"), (r"^curl_easy_cleanup$", "curl handle"),
    (r"^(std::)?free$", "memory"), (r"^closedir$", "directory"), (r"^rtcReleaseBuffer$", "Embree buffer"), (r"^ffclos$|^ffdelt$", "FITS file"),
]
# what stores a resource through a pointer argument: (callee, argument, kind)
FILLS = [(r"^tj3?Compress2?$|^tj3?Compress8$", r"unsigned char \*\*", "TurboJPEG buffer"), (r"^fits_(open|create)\w*$|^ff(open|init|dopn|topn|iopn|diopn)\w*$", r"fitsfile \*\*", "FITS file")]
NULLSAFE = ("FFTW buffer", "FFTW plan", "memory", "TurboJPEG buffer", "curl handle", "TIFF buffer", "png reader", "png writer")
N, O, R, H = "null", "open", "released", "held by an owner"


def strip(n):
    while n is not None and n.k in STRIP and n.c:
        n = n.c[-1] if n.k in ("CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr") and len(n.c) > 1 else n.c[0]
    return n


def kind(table, g):
    if g is None or g.has_body and (g.file or "").startswith("include/huira"):
        return None
    for pat, k in table:
        if re.search(pat, g.n or ""):
            return k
    return None


def join(a, b):
    if a is None or b is None:
        return b if a is None else a
    return frozenset(a | b)


class Lib:
    """Summaries of the library's own functions: which return a fresh resource, which release a parameter."""

    def __init__(self, P):
        self.P = P
        self.T = Throws(P)
        self.gives, self.takes = {}, {}
        for _ in range(3):
            for f in P.fns.values():
                if not f.has_body or f.body is None or not f.key.startswith("huira"):
                    continue
                acq = {}
                for n in f.walk():
                    if n.k == "Var" and n.role("init") is not None:
                        k = self.acquires(n.role("init"))
                        if k:
                            acq[n.get("d")] = k
                    elif n.k == "ReturnStmt" and n.c:
                        r = strip(n.c[0])
                        k = acq.get(r.get("d")) if r is not None and r.k == "DeclRefExpr" else self.acquires(n.c[0])
                        if k and P.ty(f.ret)["k"] == "ptr":
                            self.gives[f.id] = k
                    elif n.k in CALLS:
                        for k, x in self.releases(n):
                            x = strip(x)
                            if x is not None and x.k == "DeclRefExpr":
                                for j, p in enumerate(f.params):
                                    if p["d"] == x.get("d"):
                                        self.takes.setdefault(f.id, {})[j] = k

    def guard(self, t):
        """Is it a class of the library whose destructor releases something?"""
        c = self.P.ty(t).get("rec") if t is not None else None
        return any(f.cls == c and f.get("sp") == "dtor" and f.has_body and f.body is not None and any(True for n in f.walk() if n.k in CALLS for _ in self.releases(n))
                   for f in self.P.fns.values()) if c is not None else False

    def args(self, n):
        return n.c if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else n.c[1:]

    def acquires(self, n):
        n = strip(n)
        if n is None or n.k not in CALLS:
            return None
        g = self.P.fns.get(n.get("f"))
        return kind(ACQUIRE, g) or (self.gives.get(g.id) if g is not None else None)

    def releases(self, n):
        """(kind, the released expression)"""
        g = self.P.fns.get(n.get("f"))
        if g is None:
            return
        a = self.args(n)
        k = kind(RELEASE, g)
        if k and a:
            x = strip(a[0])
            if x is not None and x.k == "UnaryOperator" and x.get("op") == "&":
                x = x.c[0]
            yield k, x
        for j, k in self.takes.get(g.id, {}).items():
            if j < len(a):
                yield k, a[j]


class Flow:
    """State: frozenset of (variable, status); statuses of one variable accumulate.  None: unreachable."""

    def __init__(self, L, fn, ctor=False):
        self.L, self.P, self.fn, self.ctor = L, L.P, fn, ctor
        self.kinds, self.names, self.bad = {}, {}, {}
        self.rets, self.loops, self.tries = [], [], []
        self.ops, self.param = 0, ()
        # names for the same resource: `T* q = p;` where neither is assigned afterwards
        self.alias, self.freed = {}, False
        decl, last = [], {}
        for i, n in enumerate(fn.walk()):
            if n.k == "Var" and n.role("init") is not None and self.P.ty(n.t)["k"] == "ptr":
                w = self.var(n.role("init"))
                if w is not None:
                    decl.append((i, n.get("d"), w))
            elif n.k == "BinaryOperator" and n.get("op") == "=" or n.k == "UnaryOperator" and n.get("op") == "&":
                w = self.var(n.c[0])
                if w is not None and n.k == "BinaryOperator":
                    last[w] = i
            elif n.k == "CXXMemberCallExpr":
                g = self.P.fns.get(n.get("f"))
                if g is not None and g.n == "release":
                    self.freed = True
        for i, q, w in decl:
            if last.get(q, -1) < i and last.get(w, -1) < i:
                self.alias[q] = self.alias.get(w, w)

    # -- state -------------------------------------------------------------------------------------------------
    def get(self, st, v):
        return {s for x, s in st if x == v}

    def set(self, st, v, ss):
        return frozenset([q for q in st if q[0] != v] + [(v, s) for s in ss])

    def var(self, n):
        n = strip(n)
        if n is None:
            return None
        if n.k == "DeclRefExpr" and (n.get("dk") == "var" or n.get("d") in self.param):
            return self.alias.get(n.get("d"), n.get("d"))
        if n.k == "MemberExpr" and n.get("dk") == "field" and n.c and strip(n.c[0]).k == "CXXThisExpr":
            return "this", n.get("d")
        return None

    def known(self, n):
        v = self.var(n)
        return v if v in self.kinds else None

    def flag(self, what, v, line, st=None):
        self.bad.setdefault((what, v), line)

    def leave(self, st, line, how):
        """Everything still held when control leaves the function."""
        if st is None:
            return
        for v, k in self.kinds.items():
            if O in self.get(st, v) and (not isinstance(v, tuple) or self.ctor and how == "an exception"):
                self.flag("leaves " + how, v, line)

    def throw(self, st, line):
        if st is None:
            return
        if self.tries:
            self.tries[-1].append(st)
        else:
            self.leave(st, line, "an exception")

    # -- expressions -------------------------------------------------------------------------------------------
    def acquire(self, v, k, name, st, line):
        self.kinds[v] = k
        self.names[v] = name
        if O in self.get(st, v):
            self.flag("overwritten", v, line)
        self.ops += 1
        return self.set(st, v, (N, O))

    def ev(self, n, st):
        if n is None or st is None:
            return st
        k = n.k
        if k == "CXXThrowExpr":
            for x in n.c:
                st = self.ev(x, st)
            self.throw(st, n.l)
            return None
        if k == "LambdaExpr":
            # a guard: a closure that releases what it captured
            h = self.P.fns.get(n.get("lam"))
            if h is not None and h.body is not None:
                for x in h.walk():
                    if x.k in CALLS:
                        for _, e in self.L.releases(x):
                            v = self.known(e)
                            if v is not None:
                                st = self.set(st, v, ())
            return st
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            t, f = self.cond(n, st)
            return join(t, f)
        if k == "ConditionalOperator":
            t, f = self.cond(n.c[0], st)
            return join(self.ev(n.c[1], t), self.ev(n.c[2], f))
        if k == "BinaryOperator" and n.get("op") == "=":
            a = self.L.acquires(n.c[1])
            v = self.var(n.c[0])
            st = self.ev(n.c[1], st)
            if st is None:
                return None
            if a and v is not None:
                return self.acquire(v, a, self.name(n.c[0]), st, n.l)
            w = self.known(n.c[1])
            if w is not None and w == v:
                return st
            if w is not None:
                return self.set(st, w, ())           # handed on
            if v in self.kinds:
                if O in self.get(st, v):
                    self.flag("overwritten", v, n.l)
                r = strip(n.c[1])
                return self.set(st, v, (N,) if r is not None and r.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral") else ())
            if v is None:
                st = self.ev(n.c[0], st)
            return st
        if k in CALLS:
            return self.call(n, st)
        v = self.known(n)
        if v is not None and k in ("DeclRefExpr", "MemberExpr"):
            return st
        for x in n.c:
            st = self.ev(x, st)
        return st

    def name(self, n):
        n = strip(n)
        return n.get("n", "?") if n is not None else "?"

    def call(self, n, st):
        g = self.P.fns.get(n.get("f"))
        rel = [(k, self.known(e), e) for k, e in self.L.releases(n)]
        args = self.L.args(n)
        head = n.c[:1] if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else []
        for x in head + list(args):
            if x is not None:
                st = self.ev(x, st)
        if st is None:
            return None
        released = {v for _, v, _ in rel if v is not None}
        # use of what may have been released
        for a in args:
            b = strip(a)
            if b is not None and b.k == "UnaryOperator" and b.get("op") in ("&", "*"):
                b = b.c[0]
            v = self.known(b)
            if v is not None and v not in released and R in self.get(st, v):
                self.flag("used", v, n.l)
        # a callee that may throw
        if g is not None and not released and g.get("noex") != "yes":
            ts = self.P.targets(g.id) if g.get("virtual") and not n.get("nonvirt") else [g]
            if any(self.L.T.thr.get(h.id) for h in ts):
                self.throw(st, n.l)
        if g is not None and g.get("noreturn"):
            return None
        for k, v, e in rel:
            if v is None:
                continue
            ss = self.get(st, v)
            self.ops += 1
            if R in ss or H in ss:
                self.flag("released again" if R in ss else "released", v, n.l)
            st = self.set(st, v, (R,))
        # a resource stored through a pointer
        if g is not None:
            for pat, ty, k in FILLS:
                if re.search(pat, g.n or ""):
                    for a in args:
                        b = strip(a)
                        if b is not None and b.k == "UnaryOperator" and b.get("op") == "&" and re.search(ty, self.P.ty(b.t)["s"] if b.t is not None else ""):
                            v = self.var(b.c[0])
                            if v is not None:
                                st = self.acquire(v, k, self.name(b.c[0]), st, n.l)
            # owners
            owner = n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or g.n in ("reset", "push_back", "emplace_back", "emplace", "insert", "make_unique", "make_shared") or \
                n.k == "CXXOperatorCallExpr" and g.n == "operator="
            if owner and not g.get("externc"):
                for a in args:
                    v = self.known(a)
                    if v is not None and v not in released:
                        if len(args) > 1 and g.n in ("unique_ptr", "shared_ptr", "reset") and not self.frees(args[1]):
                            continue
                        smart = g.n in ("unique_ptr", "shared_ptr") or g.n == "reset" and re.search(r"unique_ptr|shared_ptr", g.q or g.key or "")
                        st = self.set(st, v, (H,) if smart and not self.freed and not isinstance(v, tuple) else ())
        return st

    def frees(self, e):
        """Does a deleter given to a smart pointer release anything?  (True if that is not known)"""
        e = strip(e)
        while e is not None and e.k in ("UnaryOperator", "CXXConstructExpr", "CXXTemporaryObjectExpr") and len(e.c) == 1:
            e = strip(e.c[0])
        if e is not None and e.k == "DeclRefExpr" and e.get("dk") in ("var", "slocal"):
            for v in self.fn.walk():
                if v.k == "Var" and v.get("d") == e.get("d") and v.role("init") is not None:
                    e = strip(v.role("init"))
                    while e is not None and e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(e.c) == 1:
                        e = strip(e.c[0])
        if e is not None and e.k == "LambdaExpr":
            h = self.P.fns.get(e.get("lam"))
            if h is not None and h.body is not None:
                return any(True for n in h.walk() if n.k in CALLS for _ in self.L.releases(n))
        return True

    def cond(self, n, st):
        if n is None or st is None:
            return st, st
        m = strip(n)
        if m.k == "UnaryOperator" and m.get("op") == "!":
            t, f = self.cond(m.c[0], st)
            return f, t
        if m.k == "BinaryOperator" and m.get("op") in ("&&", "||"):
            t, f = self.cond(m.c[0], st)
            if m.get("op") == "&&":
                t2, f2 = self.cond(m.c[1], t)
                return t2, join(f, f2)
            t2, f2 = self.cond(m.c[1], f)
            return join(t, t2), f2
        v, null_if = None, None
        if m.k in ("DeclRefExpr", "MemberExpr") and self.known(m) is not None:
            v, null_if = self.known(m), False
        elif m.k == "BinaryOperator" and m.get("op") in ("==", "!="):
            for a, b in ((m.c[0], m.c[1]), (m.c[1], m.c[0])):
                b = strip(b)
                if self.known(a) is not None and b is not None and b.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr", "IntegerLiteral"):
                    v, null_if = self.known(a), m.get("op") == "=="
        if v is not None:
            ss = self.get(st, v)
            if not ss:
                return st, st
            nul = self.set(st, v, ss & {N}) if N in ss else None
            non = self.set(st, v, ss - {N}) if ss - {N} else None
            return (nul, non) if null_if else (non, nul)
        # the outcome of a call that fills a resource: only success leaves one
        c = m.get("cv", m.get("v") if m.k in ("CXXBoolLiteralExpr", "IntegerLiteral") else None)
        st = self.ev(n, st)
        if c is not None and not isinstance(c, str):
            return (st, None) if c else (None, st)
        return st, st

    # -- statements --------------------------------------------------------------------------------------------
    def declare(self, v, st):
        if v is None or v.k != "Var" or st is None:
            return st
        init = v.role("init")
        if init is None:
            return st
        a = self.L.acquires(init)
        w = self.known(init)
        st = self.ev(init, st)
        if st is None:
            return None
        if w is None and self.P.ty(v.t)["k"] != "ptr":
            # an aggregate whose destructor releases what it is given
            e = strip(init)
            if e is not None and e.k == "InitListExpr" and self.L.guard(e.t):
                for x in e.c:
                    q = self.known(x)
                    if q is not None:
                        st = self.set(st, q, ())
            return st
        if a and not v.get("static") and self.P.ty(v.t)["k"] == "ptr":
            return self.acquire(v.get("d"), a, v.get("n"), self.set(st, v.get("d"), ()), v.l)
        if w is not None and self.P.ty(v.t)["k"] == "ptr" and self.alias.get(v.get("d")) == w:
            return st
        if w is not None and self.P.ty(v.t)["k"] == "ptr":
            self.kinds[v.get("d")], self.names[v.get("d")] = self.kinds[w], v.get("n")
            ss = self.get(st, w)
            return self.set(self.set(st, w, ()), v.get("d"), ss)
        return st

    def loop(self, n, st):
        if n.role("init") is not None:
            st = self.stmt(n.role("init"), st)
        out = None
        for _ in range(2):
            self.loops.append(([], []))
            if n.k == "DoStmt":
                body = self.stmt(n.role("body"), st)
                br, co = self.loops.pop()
                for x in co:
                    body = join(body, x)
                t, f = self.cond(n.role("cond"), body)
                nxt = t
            else:
                cv = n.role("condvar")
                s0 = self.declare(cv, st) if cv is not None else st
                if n.k == "CXXForRangeStmt":
                    for x in n.c:
                        if x is not None and x is not n.role("body"):
                            s0 = self.stmt(x, s0) if x.k in ("DeclStmt",) else s0
                    t = f = s0
                else:
                    c = n.role("cond")
                    t, f = self.cond(c, s0) if c is not None else (s0, None)
                body = self.stmt(n.role("body"), t)
                br, co = self.loops.pop()
                for x in co:
                    body = join(body, x)
                nxt = self.ev(n.role("inc"), body) if n.role("inc") is not None else body
            # variables of the loop's body end with the iteration
            own = {x.get("d") for x in n.role("body").walk() if x.k == "Var"} if n.role("body") is not None else set()
            for s, w in [(nxt, "an iteration")] + [(b, "the loop") for b in br]:
                if s is not None:
                    for v in own & set(self.kinds):
                        if O in self.get(s, v):
                            self.flag("leaves " + w, v, n.l)
            drop = lambda s: None if s is None else frozenset(q for q in s if q[0] not in own)  # noqa: E731
            out = join(out, drop(f))
            for b in br:
                out = join(out, drop(b))
            st = join(st, drop(nxt))
        return out

    def stmt(self, n, st):
        if n is None or st is None and n.k not in ("CompoundStmt",):
            return st
        k = n.k
        if k == "CompoundStmt":
            for x in n.c:
                st = self.stmt(x, st)
            return st
        if k == "DeclStmt":
            for v in n.c:
                st = self.declare(v, st)
            return st
        if k == "IfStmt":
            if n.role("init") is not None:
                st = self.stmt(n.role("init"), st)
            if n.role("condvar") is not None:
                st = self.declare(n.role("condvar"), st)
            fill = self.fills(n.role("cond"))
            t, f = self.cond(n.role("cond"), st)
            if fill:
                # `if (fill(&p) != 0)`: on failure it may still have to be released by nobody
                v, failed = fill
                if failed is True and t is not None:
                    t = self.set(t, v, (N,))
                if failed is False and f is not None:
                    f = self.set(f, v, (N,))
            a = self.stmt(n.role("then"), t)
            b = self.stmt(n.role("else"), f)
            return join(a, b)
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, st)
        if k == "ReturnStmt":
            for x in n.c:
                v = self.known(x)
                if v is not None:
                    st = self.set(st, v, ())
                st = self.ev(x, st)
            self.leave(st, n.l, "a return")
            return None
        if k == "BreakStmt":
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if k == "ContinueStmt":
            for l in reversed(self.loops):
                if l[1] is not None:
                    l[1].append(st)
                    break
            return None
        if k == "SwitchStmt":
            st = self.ev(n.role("cond"), st)
            self.loops.append(([], None))
            cur, body = None, n.role("body")
            for x in (body.c if body is not None and body.k == "CompoundStmt" else [body]):
                while x is not None and x.k in ("CaseStmt", "DefaultStmt"):
                    cur = join(cur, st)
                    x = x.c[-1] if x.c else None
                cur = self.stmt(x, cur)
            out = join(cur, st)
            for b in self.loops.pop()[0]:
                out = join(out, b)
            return out
        if k == "CXXTryStmt":
            self.tries.append([])
            a = self.stmt(n.c[0], st)
            caught = None
            for s in self.tries.pop():
                caught = join(caught, s)
            for x in n.c[1:]:
                if x is not None and caught is not None:
                    for y in x.c:
                        a = join(a, self.stmt(y, caught))
            return a
        if k in ("NullStmt",):
            return st
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            for x in n.c:
                st = self.stmt(x, st)
            return st
        # a resource that nobody keeps
        a = self.L.acquires(n) if k in CALLS else None
        if a:
            self.kinds[("dropped", n.l)], self.names[("dropped", n.l)] = a, "the result"
            self.flag("dropped", ("dropped", n.l), n.l)
        return self.ev(n, st)

    def fills(self, c):
        """(variable, which branch is failure) of a condition that tests a filling call's status"""
        m = strip(c)
        if m is None or m.k != "BinaryOperator" or m.get("op") not in ("!=", "==", "<"):
            return None
        for x in m.walk():
            if x.k == "CallExpr":
                g = self.P.fns.get(x.get("f"))
                for pat, ty, k in FILLS:
                    if g is not None and re.search(pat, g.n or "") and "tj" in pat:
                        for a in x.c[1:]:
                            b = strip(a)
                            if b is not None and b.k == "UnaryOperator" and b.get("op") == "&" and re.search(ty, self.P.ty(b.t)["s"] if b.t is not None else ""):
                                v = self.var(b.c[0])
                                if v is not None:
                                    return v, None
        return None

    def run(self, param=None):
        st = frozenset()
        if param is not None:
            self.param = (param["d"],)
            self.kinds[param["d"]], self.names[param["d"]] = "resource", param["n"]
            st = self.set(st, param["d"], (N, O))
        for i in self.fn.inits:
            if i["e"] is not None:
                a = self.L.acquires(i["e"])
                st = self.ev(i["e"], st)
                if st is None:
                    return
                if a and i.get("field"):
                    st = self.acquire(("this", i["field"]), a, i["n"], st, self.fn.line)
        st = self.stmt(self.fn.body, st)
        self.leave(st, self.fn.line, "the function")


def shares(g, d):
    """A copy or move operation that takes the other object's resource and leaves it there too."""
    def other(e):
        e = strip(e)
        return e is not None and e.k == "MemberExpr" and e.get("d") == d and e.c and strip(e.c[0]).k == "DeclRefExpr"

    took = any(i["field"] == d and other(i["e"]) for i in g.inits if i.get("field") and i["e"] is not None)
    gave = False
    for n in g.walk():
        if n.k == "BinaryOperator" and n.get("op") == "=":
            gave |= other(n.c[0])
            took |= other(n.c[1])
        elif n.k == "CallExpr" and n.c:
            gave |= strip(n.c[0]) is not None and strip(n.c[0]).get("n") in ("swap", "exchange") and any(other(a) for a in n.c[1:])
    return took and not gave


def internal(r):
    """A class that is no part of the interface: local to a function, in a detail namespace, or declared by an implementation file."""
    key = r["key"]
    return ")::" in key or "()" in key or "::detail::" in key or "(anonymous" in key or key.endswith("_") or "huira_impl/" in str(r.get("file") or "")


def copied(P, r):
    """Does the library copy or move objects of the class anywhere (or keep them in a container)?"""
    cls = {r["id"]}
    for g in P.fns.values():
        if any(cls & {P.ty(P.deref_type(p["t"])).get("rec")} for p in g.params) and g.cls in cls:
            continue
        if not g.has_body or g.body is None:
            continue
        for n in g.walk():
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.t is not None and P.ty(n.t).get("rec") in cls:
                h = P.fns.get(n.get("f"))
                if h is not None and h.get("sp") in ("copy", "move") or h is None and len(n.c) == 1 and n.c[0] is not None and n.c[0].t is not None and P.ty(P.deref_type(n.c[0].t)).get("rec") in cls:
                    return True
            if n.k == "CXXOperatorCallExpr" and len(n.c) > 2 and n.c[1] is not None and n.c[1].t is not None and P.ty(P.deref_type(n.c[1].t)).get("rec") in cls:
                h = P.fns.get(n.get("f"))
                if h is None or h.n == "operator=":
                    return True
            if n.k == "BinaryOperator" and n.get("op") == "=" and n.t is not None and P.ty(P.deref_type(n.t)).get("rec") in cls:
                return True
    short = r["key"].split("::")[-1]
    for t in P.types:
        if t["k"] == "rec" and str(t.get("key", "")).startswith("std::") and any(re.search(r"(^|::)%s\b(?! ?\*)" % re.escape(short), str(a)) for a in t.get("targs") or []) \
                and not re.search(r"unique_ptr|shared_ptr|default_delete|is_|remove_|conditional|enable_if|integral_constant", t["key"]):
            return True
    return False


def run(ctx):
    P = ctx.program()
    L = Lib(P)
    done = {}

    def put(key, rule, where, bad, msg, site):
        if key not in done or bad and not done[key][1]:
            done[key] = (rule, bad, where, msg, site)

    fields = {}      # (class key, field name) -> kind
    owners = {}      # function acquiring into a field
    vias = []
    for f in P.fns.values():
        if not f.has_body or f.body is None or not (f.key.startswith("huira") or (f.file or "").startswith("apps/")):
            continue
        fl = Flow(L, f, f.key.endswith("(ctor)"))
        fl.run()
        for v, k in fl.kinds.items():
            if isinstance(v, tuple) and v[0] == "this":
                acq = any(x.k == "BinaryOperator" and x.get("op") == "=" and fl.var(x.c[0]) == v and L.acquires(x.c[1]) for x in f.walk()) or \
                    any(i.get("field") == v[1] and i["e"] is not None and L.acquires(i["e"]) for i in f.inits)
                if acq:
                    fields[(f.cls, v[1])] = (k, fl.names[v], f)
                    vias.append((f, v))
                continue
        ctx.cov["operations"] = ctx.cov.get("operations", 0) + fl.ops
        held = {v: k for v, k in fl.kinds.items()}
        for v, k in held.items():
            name = fl.names[v]
            what = [(w, l) for (w, x), l in sorted(fl.bad.items(), key=str) if x == v]
            msg = "; ".join("the %s in %s %s at line %d" % (k, name, {
                "released again": "may be released a second time", "used": "may be used after its release", "released": "is released although an owner holds it", "overwritten": "is overwritten while still held",
                "dropped": "is acquired and not kept"}.get(w, "is not released when control " + w), l) for w, l in what)
            put((f.key, f.file, f.line, name), "local", f.where, bool(what), msg, "%s %s (%s)" % (f.key, name, k))
    # constructors whose helpers acquire into a field
    for f, v in vias:
        callers = [c for c in P.fns.values() if c.key.endswith("(ctor)") and c.cls == f.cls and c.has_body and c.body is not None]
        for c in callers:
            if c is f:
                continue
            calls = any(n.k == "CXXMemberCallExpr" and n.get("f") == f.id for n in c.walk())
            if calls and not any(i.get("field") is None and i["e"] is not None and i["e"].k in CALLS and P.fns.get(i["e"].get("f")) is not None
                                 and P.fns[i["e"].get("f")].cls == c.cls for i in c.inits):
                fl = Flow(L, f, True)
                fl.run()
                bad = [(w, l) for (w, x), l in fl.bad.items() if x == v and w == "leaves an exception"]
                name = fl.names[v]
                put(("ctor", c.key, c.line, name), "constructor", c.where, bool(bad),
                    "%s throws at line %d while the constructor holds %s: nobody releases it" % (f.key, bad[0][1] if bad else 0, name), "%s %s" % (c.key, name))
    # classes that keep one, or that release one
    recs = P.records.values() if isinstance(P.records, dict) else P.records
    by = {r["id"]: r for r in recs}
    for f in P.fns.values():
        if f.get("sp") == "dtor" and f.has_body and f.body is not None and f.key.startswith("huira"):
            for n in f.walk():
                if n.k in CALLS:
                    for k, e in L.releases(n):
                        e = strip(e)
                        if e is not None and e.k == "MemberExpr" and e.get("dk") == "field" and e.c and strip(e.c[0]).k == "CXXThisExpr":
                            fields.setdefault((f.cls, e.get("d")), (k, e.get("n"), f))
    # FITS files are closed through cfitsio's short names
    for (cls, d), (k, name, f) in sorted(fields.items(), key=str):
        rr = by.get(cls)
        if rr is None:
            continue
        dt = [g for g in P.fns.values() if g.get("sp") == "dtor" and g.cls == cls and g.has_body and g.body is not None]
        rel = any(strip(e) is not None and strip(e).get("d") == d for g in dt for n in g.walk() if n.k in CALLS for _, e in L.releases(n))
        where = f.where
        site = "%s::%s (%s)" % (rr["key"], name, k)
        put(("field", rr["key"], name), "owner", where, not rel, "%s keeps a %s in %s, and its destructor does not release it" % (rr["key"], k, name), site)
        shared = [w for w in ("cctor", "cassign", "mctor", "massign") if rr.get(w) == "implicit"] + \
            [g.n for g in P.fns.values() if g.cls == cls and g.has_body and g.body is not None and g.get("sp") in ("copy", "move", "copyassign", "moveassign") and shares(g, d)]
        if shared and internal(rr) and not copied(P, rr):
            shared = []             # nobody outside can copy it, and nobody inside does
        if rel:
            put(("copy", rr["key"], name), "copies", where, bool(shared),
                "%s releases the %s in %s when it is destroyed, and can be copied or moved so that both objects release it" % (rr["key"], k, name), site)
    # what smart pointers do with what they own
    for r in recs:
        ta = r.get("targs") or []
        if r["key"] != "std::unique_ptr" or len(ta) != 2:
            continue
        dele = re.sub(r"<.*", "", str(ta[1]))
        if dele.startswith("huira::"):
            for f in P.fns.values():
                if f.key == dele + "::operator()" and f.has_body and f.body is not None and len(f.params) == 1:
                    fl = Flow(L, f)
                    fl.run(f.params[0])
                    what = [(w, l) for (w, x), l in fl.bad.items() if x == f.params[0]["d"]]
                    ks = {k for n in f.walk() if n.k in CALLS for k, e in L.releases(n)}
                    put(("deleter", dele), "deleter", f.where, bool(what), "%s does not release what it is given exactly once (%s)" % (dele, ", ".join(w for w, _ in what)), "%s (%s)" % (dele, ", ".join(sorted(ks))))
        elif dele == "std::default_delete":
            base = re.sub(r"<.*", "", str(ta[0]))
            for q in recs:
                if q["key"] == base and base.startswith("huira::"):
                    ms = [P.fns[m] for m in q.get("methods", []) if m in P.fns]
                    if any(g.get("virtual") for g in ms):
                        put(("virtual", base), "virtual", ms[0].where, not any(g.get("sp") == "dtor" and g.get("virtual") for g in ms),
                            "%s is deleted through a unique_ptr to it, but its destructor is not virtual: what its derived classes own is not released" % base, base)
    for key, (rule, bad, where, msg, site) in sorted(done.items(), key=lambda kv: str(kv[0])):
        ctx.ob(not bad, rule, where, msg, site)
        ctx.count(rule)
        if not bad:
            ctx.sample("%s %s" % (rule, site))
    ctx.require(ctx.cov.get("local", 0) >= 5, "no resource is acquired any more")
