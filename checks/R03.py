"""R03: rendering touches exactly the channels that are enabled.

A flow analysis over everything that is handed a FrameBuffer (Renderer::render, SensorModel::readout and what they
call, closures included), with the set of channels known to be present as its state.  The state grows in branches of
FrameBuffer::has_X() (negations, conjunctions, early exits, flags that hold its result) and inside loops bounded by the
channel's own size; enabling the sensor response implies the received power, as FrameBuffer itself establishes.  Every
access to a channel's pixels or replacement of its image must happen where that channel is known to be present.
"""
EXITS = ("ReturnStmt", "ContinueStmt", "BreakStmt", "CXXThrowExpr")


def strip(n):
    while n is not None and n.k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                                    "CXXStaticCastExpr", "ConstantExpr") and n.c:
        n = n.c[0]
    return n


class Flow:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.seen = {}
        self.bad = {}
        self.good = {}
        self.visited = set()
        # channels: accessors of FrameBuffer that return a reference to an image and have a has_X
        fb = [f for f in P.fns.values() if f.clskey == "huira::FrameBuffer"]
        names = {f.n for f in fb}
        self.chan = {n for n in names if "has_" + n in names}
        self.implies = {"sensor_response": {"received_power"}} if {"sensor_response", "received_power"} <= self.chan else {}

    def callee(self, n):
        return self.P.fns.get(n.get("f"))

    def channel(self, n, al):
        """The channel whose image the expression denotes."""
        n = strip(n)
        if n is None:
            return None
        if n.k == "CXXMemberCallExpr":
            f = self.callee(n)
            if f is not None and f.clskey == "huira::FrameBuffer" and f.n in self.chan:
                return f.n
        if n.k == "DeclRefExpr" and n.get("d") in al:
            return al[n.get("d")]
        return None

    def facts(self, n, al, flags):
        """(channels present if n is true, channels present if n is false)"""
        n = strip(n)
        none = frozenset()
        if n is None:
            return none, none
        if n.k == "UnaryOperator" and n.get("op") == "!":
            t, f = self.facts(n.c[0], al, flags)
            return f, t
        if n.k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            a, b = self.facts(n.c[0], al, flags), self.facts(n.c[1], al, flags)
            return (a[0] | b[0], a[1] & b[1]) if n.get("op") == "&&" else (a[0] & b[0], a[1] | b[1])
        if n.k == "BinaryOperator" and n.get("op") in ("<", "<=", ">", ">=", "!="):
            # an index below the extent of a channel's image: the image is not empty
            got = set()
            for x in n.walk():
                if x.k == "CXXMemberCallExpr":
                    f = self.callee(x)
                    if f is not None and f.n in ("width", "height", "size") and f.clskey == "huira::Image":
                        m = strip(x.c[0]) if x.c else None
                        c = self.channel(m.c[0] if m is not None and m.k == "MemberExpr" and m.c else m, al)
                        if c:
                            got.add(c)
                elif x.k == "DeclRefExpr" and x.get("d") in self.extent:
                    got.add(self.extent[x.get("d")])
            lt = n.get("op") in ("<", ">", "!=")
            return frozenset(got) if lt else none, none
        if n.k == "CXXMemberCallExpr":
            f = self.callee(n)
            if f is not None and f.clskey == "huira::FrameBuffer" and f.n.startswith("has_") and f.n[4:] in self.chan:
                c = f.n[4:]
                return frozenset({c} | self.implies.get(c, set())), none
            return self.helper(f) if f is not None else (none, none)
        if n.k == "CallExpr":
            f = self.callee(n)
            return self.helper(f) if f is not None else (none, none)
        if n.k == "DeclRefExpr" and n.get("d") in flags:
            return flags[n.get("d")]
        return none, none

    def helper(self, f):
        """A predicate of the library: what its returned expression says."""
        none = frozenset()
        if not f.has_body or f.body is None or f.id in self.active:
            return none, none
        rs = [x for x in f.walk() if x.k == "ReturnStmt" and x.c]
        if len(rs) != 1:
            return none, none
        self.active.add(f.id)
        r = self.facts(rs[0].c[0], {}, {})
        self.active.discard(f.id)
        return r

    active = set()
    extent = {}

    def size_of(self, n, al):
        """the channel whose extent an initialiser is"""
        n = strip(n)
        while n is not None and len(n.c) == 1 and n.k not in ("CXXMemberCallExpr", "DeclRefExpr"):
            n = strip(n.c[0])
        if n is None:
            return None
        if n.k == "DeclRefExpr":
            return self.extent.get(n.get("d"))
        if n.k == "CXXMemberCallExpr":
            f = self.callee(n)
            if f is not None and f.n in ("width", "height", "size") and f.clskey == "huira::Image":
                m = strip(n.c[0]) if n.c else None
                return self.channel(m.c[0] if m is not None and m.k == "MemberExpr" and m.c else m, al)
        return None

    def takes(self, f):
        return any("FrameBuffer<" in self.P.tstr(p["t"]) for p in f.params)

    def function(self, f, have):
        key = (f.id, have)
        if key in self.seen or f.body is None:
            return
        self.seen[key] = 1
        self.visited.add(f.key)
        self.st(f.body, have, {}, {}, f)

    def exits(self, n):
        if n is None:
            return False
        if n.k in EXITS:
            return True
        if n.k == "CompoundStmt":
            return any(self.exits(x) for x in n.c)
        if n.k == "IfStmt":
            return n.role("else") is not None and self.exits(n.role("then")) and self.exits(n.role("else"))
        if n.k in ("ExprWithCleanups", "DoStmt"):
            return any(self.exits(x) for x in n.c if x is not None)
        return False

    def st(self, n, have, al, fl, f):
        """Walks a statement; returns what is known after it."""
        if n is None:
            return have
        k = n.k
        if k == "CompoundStmt":
            for x in n.c:
                have = self.st(x, have, al, fl, f)
            return have
        if k == "DeclStmt":
            for v in n.c:
                if v is None or v.k != "Var":
                    continue
                init = v.role("init")
                if init is None:
                    cs = [x for x in v.c if x is not None]
                    init = cs[0] if cs else None
                if init is None:
                    continue
                t = self.P.ty(v.t)
                c = self.channel(init, al)
                if c and t["k"] in ("ref", "ptr"):
                    al[v.get("d")] = c
                    continue
                if t["s"].replace("const ", "") == "bool":
                    fl[v.get("d")] = self.facts(init, al, fl)
                e = self.size_of(init, al) if t["k"] not in ("ref", "ptr") else None
                if e:
                    self.extent = dict(self.extent)
                    self.extent[v.get("d")] = e
                self.ex(init, have, al, fl, f)
            return have
        if k == "IfStmt":
            for x in n.c:
                if x is not None and x.r in ("init", "condvar"):
                    have = self.st(x, have, al, fl, f)
            cond = n.role("cond")
            have0 = have
            if cond is not None:
                self.ex(cond, have, al, fl, f)
            t, e = self.facts(cond, al, fl)
            then, els = n.role("then"), n.role("else")
            a = self.st(then, have | t, dict(al), fl, f)
            b = self.st(els, have | e, dict(al), fl, f) if els is not None else have | e
            ax, bx = self.exits(then), els is not None and self.exits(els)
            if ax and bx:
                return have0
            return b if ax else a if bx else a & b
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            for x in n.c:
                if x is not None and x.r in ("init", "condvar"):
                    self.st(x, have, al, fl, f)
            cond = n.role("cond")
            inside = have
            if cond is not None and k != "CXXForRangeStmt":
                self.ex(cond, have, al, fl, f)
                if k != "DoStmt":
                    inside = have | self.facts(cond, al, fl)[0]
            if k == "CXXForRangeStmt":
                for x in n.c:
                    if x is not None and x.r == "range":
                        for v in x.walk():
                            c = self.channel(v, al)
                            if c:
                                inside = inside | {c}   # its elements exist only if it does
            if n.role("inc") is not None:
                self.ex(n.role("inc"), inside, al, fl, f)
            self.st(n.role("body"), inside, dict(al), fl, f)
            return have
        if k in ("SwitchStmt", "CaseStmt", "DefaultStmt", "CXXTryStmt", "CXXCatchStmt", "LabelStmt", "AttributedStmt"):
            for x in n.c:
                if x is not None:
                    self.st(x, have, dict(al), fl, f)
            return have
        if k == "Var":
            return have
        self.ex(n, have, al, fl, f)
        return have

    def ex(self, n, have, al, fl, f):
        if n is None:
            return
        if n.k in ("ConditionalOperator",):
            self.ex(n.c[0], have, al, fl, f)
            t, e = self.facts(n.c[0], al, fl)
            self.ex(n.c[1], have | t, al, fl, f)
            self.ex(n.c[2], have | e, al, fl, f)
            return
        if n.k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            self.ex(n.c[0], have, al, fl, f)
            t, e = self.facts(n.c[0], al, fl)
            self.ex(n.c[1], have | (t if n.get("op") == "&&" else e), al, fl, f)
            return
        if n.k == "LambdaExpr":
            g = self.P.fns.get(n.get("lam"))
            if g is not None and g.body is not None:
                self.visited.add(f.key + "::lambda")
                self.st(g.body, have, dict(al), dict(fl), f)
            return
        if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            g = self.callee(n)
            if g is not None:
                args = [x for x in n.c if x is not None]
                if n.k == "CXXOperatorCallExpr":
                    on = args[1] if len(args) > 1 and strip(args[0]).k == "DeclRefExpr" and strip(args[0]).get("dk") == "fn" \
                        else args[0] if args else None
                    cands = [on]
                elif n.k == "CXXMemberCallExpr":
                    m = strip(args[0])
                    cands = [m.c[0]] if m is not None and m.k == "MemberExpr" and m.c else [m]
                else:
                    cands = []
                for on in cands:
                    c = self.channel(on, al)
                    if c and g.n in ("operator()", "operator[]", "operator=", "at", "fill", "convolve", "data", "begin",
                                     "sample_bilinear", "operator+=", "operator*=", "swap"):
                        self.note(c, n, have, f, g.n)
                    elif c and n.k == "CXXMemberCallExpr" and g.clskey == "huira::Image" and not g.const:
                        self.note(c, n, have, f, g.n)
                if g.clskey == "huira::FrameBuffer" and g.n.startswith("enable_") and g.n[7:] in self.chan:
                    self.note(g.n[7:], n, have, f, g.n)
                if g.has_body and self.takes(g) and g.clskey != "huira::FrameBuffer":
                    for h in (self.P.targets(g.id) if g.get("virtual") else [g]):
                        self.function(h, have)
        for x in n.c:
            if x is not None:
                self.ex(x, have, al, fl, f)

    # an operation whose precondition is only that the sizes agree, or that works on an empty image
    def note(self, c, n, have, f, how):
        where = "%s:%d" % (f.file, n.l)
        if c in have:
            self.good.setdefault((f.key, c, n.l, how), where)
        else:
            self.bad.setdefault((f.key, c), (where, how))


def run(ctx):
    P = ctx.program()
    F = Flow(P, ctx)
    ctx.require(len(F.chan) >= 5, "FrameBuffer's channels (X with has_X) were not found")
    fns = [f for f in P.defs if f.body is not None and F.takes(f) and f.clskey != "huira::FrameBuffer"
           and "(lambda" not in f.q]
    called = set()
    for f in fns:
        for n in f.walk():
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                g = P.fns.get(n.get("f"))
                if g is not None and F.takes(g):
                    called |= {h.id for h in (P.targets(g.id) if g.get("virtual") else [g])}
            elif n.k == "LambdaExpr":
                g = P.fns.get(n.get("lam"))
                for m in (g.walk() if g is not None and g.body is not None else ()):
                    h = P.fns.get(m.get("f")) if m.k in ("CallExpr", "CXXMemberCallExpr") else None
                    if h is not None and F.takes(h):
                        called.add(h.id)
    # readout is public: a caller may use it without the renderer
    roots = [f for f in fns if f.id not in called or f.get("acc", "public") == "public"]
    ctx.require(roots, "no function takes a FrameBuffer")
    for f in roots:
        F.function(f, frozenset())
    for (k, c, l, how), where in sorted(F.good.items()):
        ctx.ob(True, "guarded", where, "", "%s/%s" % (k, c))
    for (k, c), (where, how) in sorted(F.bad.items()):
        ctx.ob(False, "guarded", where, ("%s enables the channel %s" % (k, c) if how.startswith("enable_") else
                "%s uses the pixels of the channel %s (%s) where it may be disabled" % (k, c, how)),
               "%s/%s" % (k, c))
    for c in sorted(F.chan):
        ok = any(k[1] == c for k in F.good) or any(k[1] == c for k in F.bad)
        ctx.ob(ok, "filled", roots[0].where, "" if ok else "rendering never writes the channel %s" % c, c)
    ctx.cov["accesses"] = len(F.good) + len(F.bad)
    ctx.cov["functions"] = len(F.visited)
    ctx.sample({"channels": sorted(F.chan), "entry points": sorted({f.key for f in roots})})
    ctx.require(len(F.good) + len(F.bad) >= 8, "accesses to frame buffer channels")
