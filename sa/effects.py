"""Which objects code that runs in parallel may modify: a context-sensitive region and effect analysis.

Every expression gets the set of *shared* objects it may denote (`at`) and may point to (`to`); the empty set
means: only objects the iteration itself created.  Integer expressions also get symbolic bounds, linear in the
iteration's index, so that an element access can be proved to belong to one iteration alone (`owned`).
Calls into the repository are followed with the regions of their arguments; functions without a body are judged
by constness and by tables of accessors and known thread-safe functions.
"""
import re

OWN = frozenset()


class V:
    __slots__ = ("at", "to", "lo", "hi", "fn")

    def __init__(self, at=OWN, to=OWN, lo=(), hi=(), fn=()):
        self.at = at
        self.to = to
        self.lo = lo
        self.hi = hi
        self.fn = fn

    def key(self):
        return (self.at, self.to, self.lo, self.hi, tuple(id(x) for x in self.fn))


def join(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return V()
    lo = vs[0].lo if all(v.lo == vs[0].lo for v in vs) else ()
    hi = vs[0].hi if all(v.hi == vs[0].hi for v in vs) else ()
    fn = ()
    for v in vs:
        fn += tuple(x for x in v.fn if x not in fn)
    return V(OWN.union(*[v.at for v in vs]), OWN.union(*[v.to for v in vs]), lo, hi, fn)


# ---- polynomials: frozenset of (monomial tuple, coefficient) -------------------------------------
def P_(c=0, **_):
    return frozenset([((), c)]) if c else frozenset()


def psym(s):
    return frozenset([((s,), 1)])


def padd(a, b, k=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return frozenset((m, c) for m, c in d.items() if c)


def pmul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            x = tuple(sorted(m + n, key=repr))
            d[x] = d.get(x, 0) + c * e
    return frozenset((m, c) for m, c in d.items() if c)


def pconst(a):
    if not a:
        return 0
    if len(a) == 1:
        (m, c), = a
        if m == ():
            return c
    return None


def exact(v):
    """The single value of v as a polynomial, if its bounds coincide."""
    for x in v.lo:
        if x in v.hi:
            return x
    return None


def ex(p):
    return V(lo=(p,), hi=(p,))


ACCESS = {"shared_from_this", "weak_from_this", "operator[]", "operator*", "operator->", "at", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data",
          "front", "back", "get", "find", "value", "lower_bound", "upper_bound", "first", "second", "operator()",
          "get_child", "base", "operator+", "operator-", "operator bool", "c_str", "size", "empty"}
PURE = {"move", "forward", "addressof", "as_const", "min", "max", "clamp", "get", "get_if", "begin", "end", "data",
        "next", "prev", "ref", "cref", "size", "make_tuple", "tie", "static_pointer_cast", "dynamic_pointer_cast",
        "const_pointer_cast", "distance", "operator==", "operator!=", "operator<", "operator-", "operator+",
        "value_ptr", "isnan", "isinf", "isfinite", "abs", "sqrt", "__builtin_addressof", "as_writable_bytes"}
POINTERISH = re.compile(r"(shared_ptr|unique_ptr|weak_ptr|__shared_ptr|reference_wrapper|iterator|_Iterator|"
                        r"(^|::)span<|string_view|initializer_list)")
SAFE_C = {"rtcIntersect1", "rtcOccluded1", "rtcIntersect4", "rtcIntersect8", "rtcIntersect16", "rtcOccluded4",
          "rtcInterpolate", "rtcInterpolate0", "rtcInterpolate1", "rtcInitIntersectArguments",
          "rtcInitOccludedArguments", "rtcGetGeometryUserData", "rtcGetGeometryUserDataFromScene", "rtcGetGeometry",
          "rtcGetGeometryThreadSafe", "rtcGetGeometryTransform", "rtcGetGeometryTransformFromScene",
          "rtcGetSceneBounds", "rtcInitRayQueryContext", "rtcGetGeometryBufferData", "rtcGetSceneDevice"}
UNREPEATABLE = re.compile(r"(std::random_device|::(system_clock|steady_clock|high_resolution_clock)::now$|"
                          r"std::this_thread::get_id|^(std::)?(rand|time|clock|getpid|drand48|lrand48)$|"
                          r"tbb::.*current_thread_index)")
ENGINE = re.compile(r"(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry|huira::\w*Sampler<|"
                    r"discard_block_engine|independent_bits_engine|shuffle_order_engine|_distribution<)")


class Closure:
    def __init__(self, node, env, this, fr):
        self.node = node
        self.env = env
        self.this = this
        self.fr = fr


class Frame:
    def __init__(self, fn, this, env, up=None):
        self.fn = fn
        self.this = this
        self.env = env
        self.rets = []
        self.locked = up.locked if up else False
        self.depth = up.depth + 1 if up else 0
        self.chain = (up.chain if up else ())
        self.inc = None


class Effects:
    def __init__(self, P, quiet=("huira::Logger::", "huira::ScopeLogger::")):
        self.P = P
        self.quiet = quiet
        self.writes = {}     # (where, root) -> (kind, chain, text)
        self.random = {}
        self.unknown = {}
        self.memo = {}
        self.active = set()
        self.dims = []
        self.mut = {}
        self.visited = set()
        self.calls = 0
        self._hp = {}
        self.outer = set()
        self.blackbox = None
        self.index_vars = set()
        self.chunk = {}

    # ---- helpers -----------------------------------------------------------------------------
    def wh(self, n):
        return "%s:%d" % (n.fn.file, n.l)

    def write(self, n, roots, fr, what):
        if fr.locked:
            return
        for r in roots:
            self.writes.setdefault((r[1] if len(r) > 1 else "?", self.wh(n)), (r[0], fr.chain, what, n))

    def holds(self, t, depth=0):
        """May an object of type index t contain a pointer to something else?"""
        P = self.P
        t = P.deref_type(t)
        if t in self._hp:
            return self._hp[t]
        self._hp[t] = False
        ty = P.ty(t)
        k = ty["k"]
        s = ty["s"]
        r = True
        if k in ("int", "float", "bool", "enum") or k in ("f", "i", "b", "void"):
            r = False
        elif k == "ptr":
            r = True
        elif k == "rec":
            rec = P.records.get(ty.get("rec"))
            if POINTERISH.search(s) or "*" in s or "std::function" in s:
                r = True
            elif rec is not None and rec.get("key", "").startswith("huira::") and depth < 8:
                r = any(self.holds(f["t"], depth + 1) for f in rec.get("fields", ()))
                if not r:
                    for b in P.bases(rec["id"]):
                        br = P.records.get(b)
                        if br and any(self.holds(f["t"], depth + 1) for f in br.get("fields", ())):
                            r = True
            else:
                # library value types and containers of them
                r = bool(re.search(r"\*|_ptr<|any>|function<", s)) or (rec is not None and "huira::" in s and
                                                                        self._inner(s))
        elif k in ("arr", "array"):
            r = "*" in s
        else:
            r = "*" in s or "_ptr<" in s
        self._hp[t] = r
        return r

    def _inner(self, s):
        for m in re.findall(r"huira::([A-Za-z_]+)", s):
            for rec in self.P.rec_by_key.get("huira::" + m, ())[:1]:
                if any(self.P.ty(self.P.deref_type(f["t"]))["k"] == "ptr" or "_ptr<" in self.P.tstr(f["t"])
                       for f in rec.get("fields", ())):
                    return True
        return False

    def mutated(self, f):
        """Local variables of f that are changed after their declaration: d -> list of nodes."""
        if f.id in self.mut:
            return self.mut[f.id]
        out = {}

        def note(x, n):
            while x is not None and x.k in ("ParenExpr", "ImplicitCastExpr", "CXXStaticCastExpr"):
                x = x.c[0] if x.c else None
            if x is not None and x.k == "DeclRefExpr" and x.get("dk") in ("var", "parm"):
                out.setdefault(x.get("d"), []).append(n)

        for n in f.walk():
            if n.k == "BinaryOperator" and n.get("op") == "=" or n.k == "CompoundAssignOperator":
                note(n.c[0], n)
            elif n.k == "UnaryOperator" and n.get("op") in ("++", "--", "&"):
                note(n.c[0], n)
            elif n.k == "LambdaExpr":
                for g in n.get("lams", ()):
                    lf = self.P.fns.get(g)
                    if lf is not None and lf.body is not None:
                        for d, ns in self.mutated(lf).items():
                            out.setdefault(d, []).extend(ns)
            elif n.get("f") is not None:
                g = self.P.fns.get(n.get("f"))
                if g is not None:
                    args = self.args(n)[1]
                    for p, a in zip(g.params, args):
                        t = self.P.ty(p["t"])
                        if t["k"] == "ref" and not self.isconst(t["p"]) and a is not None:
                            note(a, n)
        self.mut[f.id] = out
        return out

    def isconst(self, t):
        return self.P.tstr(t).startswith("const ") or self.P.ty(t).get("c")

    def args(self, n):
        """(object node or None, argument nodes)"""
        c = n.c
        if n.k == "CXXConstructExpr" or n.k == "CXXTemporaryObjectExpr":
            return None, list(c)
        f = self.P.fns.get(n.get("f"))
        if n.k == "CXXOperatorCallExpr":
            if f is not None and f.cls is not None and not f.get("static"):
                return (c[1] if len(c) > 1 else None), list(c[2:])
            return None, list(c[1:])
        if n.k == "CXXMemberCallExpr":
            m = c[0]
            while m is not None and m.k in ("ParenExpr", "ImplicitCastExpr") and m.c:
                m = m.c[0]
            return m, list(c[1:])
        return None, list(c[1:])

    # ---- expressions -------------------------------------------------------------------------
    def ev(self, n, fr):
        if n is None:
            return V()
        cv = n.get("cv")
        if cv is None and n.k in ("IntegerLiteral",):
            cv = n.get("v")
        if isinstance(cv, int) and not isinstance(cv, bool):
            for x in n.c:
                pass
            return ex(P_(cv))
        m = getattr(self, "v_" + n.k, None)
        if m is not None:
            return m(n, fr)
        return self.default(n, fr)

    def default(self, n, fr):
        vs = [self.ev(x, fr) for x in n.c if x is not None]
        if len(vs) == 1 and (n.k.endswith("CastExpr") or n.k in ("ParenExpr", "ExprWithCleanups",
                                                                   "CXXBindTemporaryExpr", "MaterializeTemporaryExpr")):
            return vs[0]
        if n.k == "InitListExpr" or n.k == "CXXStdInitializerListExpr":
            j = join(*vs)
            return V(OWN, j.to | (j.at if self.holds(n.t) else OWN) if self.holds(n.t) else OWN, fn=j.fn)
        return V()

    def v_ImplicitCastExpr(self, n, fr):
        v = self.ev(n.c[0], fr)
        ck = n.get("ck")
        if ck == "ArrayToPointerDecay":
            return V(OWN, v.at | (v.to if self.holds(n.t, 0) and "*" in self.P.tstr(n.c[0].t) else OWN) if v.at == OWN
                     else v.at)
        if ck == "FloatingToIntegral":
            return V()
        return v

    v_CXXStaticCastExpr = v_CStyleCastExpr = v_CXXFunctionalCastExpr = v_ImplicitCastExpr
    v_CXXReinterpretCastExpr = v_CXXConstCastExpr = v_ImplicitCastExpr

    def v_CXXThisExpr(self, n, fr):
        return V(OWN, fr.this.at | fr.this.to if fr.this is not None else OWN)

    def v_DeclRefExpr(self, n, fr):
        d = n.get("d")
        if d in fr.env:
            return fr.env[d]
        if n.get("dk") == "fn" or n.get("f") is not None:
            g = self.P.fns.get(n.get("f") or d)
            return V(fn=(g,)) if g is not None else V()
        if n.get("dk") == "slocal":
            s = self.P.tstr(n.t)
            if s.startswith("const ") or self.static_is_own(d):
                return V()
            # its declaration was not passed (it is a capture of an enclosing function's)
            r = frozenset([("static", "the function-static %s" % n.get("n"))])
            return V(r, r)
        v = self._vars().get(d)
        if v is not None:
            s = self.P.tstr(v.get("t", -1))
            if v.get("const") or s.startswith("const ") or v.get("constexpr"):
                return V()
            nm = v.get("q") or v.get("n")
            return V(frozenset([("global", "the global " + nm)]), frozenset([("global", "the global " + nm)]))
        return V()

    def static_is_own(self, d):
        """A function-static variable that every thread has its own copy of, or that never changes."""
        if not hasattr(self, "_st"):
            self._st = {}
            for f in self.P.defs:
                if f.file and not f.file.startswith("/") and f.body is not None:
                    for x in f.walk():
                        if x.k == "Var" and x.get("static"):
                            self._st[x.get("d")] = bool(x.get("constexpr"))
        return self._st.get(d, False)

    def _vars(self):
        if not hasattr(self, "_v"):
            self._v = {}
            for v in self.P.vars:
                self._v[v.get("d", v.get("id"))] = v
        return self._v

    def sub(self, roots, name):
        out = set()
        for r in roots:
            nm = r[1]
            if nm.count(".") < 4 and name:
                nm = nm + "." + name
            out.add((r[0], nm))
        return frozenset(out)

    def v_MemberExpr(self, n, fr):
        if n.get("dk") == "fn":
            if n.c:
                self.ev(n.c[0], fr)
            return V()
        if not n.c:      # static data member
            return self.v_DeclRefExpr(n, fr)
        b = self.ev(n.c[0], fr)
        live = b.to if n.get("arrow") else b.at
        t = self.P.ty(n.t)
        to = (self.sub(live, n.get("n")) if live else b.to)
        at = self.sub(live, n.get("n"))
        fd = self.P.field_of.get(n.get("d"))
        if fd and self.P.ty(fd[1]["t"])["k"] == "ref":
            at = to
        if not self.holds(n.t) and self._int(n.t):
            to = OWN
        # an integer field of an object nobody writes here is a symbol
        if self._int(n.t) and live and self._canon(n):
            p = psym(self._canon(n))
            return V(at, to, (p,), (p,))
        return V(at, to)

    def _int(self, t):
        return self.P.ty(self.P.deref_type(t))["s"].replace("const ", "") in (
            "int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "long long",
            "unsigned long long", "std::size_t", "size_t", "std::uint32_t", "uint32_t")

    def _canon(self, n):
        if n.k == "CXXThisExpr":
            return "this"
        if n.k == "MemberExpr" and n.get("dk") != "fn" and n.c:
            b = self._canon(n.c[0])
            return b and b + "." + str(n.get("n"))
        if n.k == "DeclRefExpr" and n.get("dk") in ("var", "parm"):
            return "%s#%s" % (n.get("n"), n.get("d"))
        if n.k in ("ImplicitCastExpr", "ParenExpr") and n.c:
            return self._canon(n.c[0])
        return None

    def owned(self, vals):
        """Do these index values belong to one iteration alone?"""
        tags = set()
        idx = set(self.dims)
        for v in vals:
            for L in v.lo:
                for H in v.hi:
                    d = padd(H, L, -1)
                    w = pconst(d)
                    if w is None or w < 0:
                        continue
                    for m, c in L:
                        if len(m) == 1 and abs(c) > w and self._is_index(m[0]):
                            rest = [x for x, _ in L if x != m]
                            if all(not any(self._is_index(y) or not self.invariant(y) for y in x) for x in rest):
                                tags.add(m[0])
                    # row-major index of a two-dimensional range: y * W + x with x in [0, W)
                    if w == 0 and len(self.dims) == 2:
                        W = self.dimhi.get(self.dims[1])
                        if W is not None and self.dimlo.get(self.dims[1]) == P_(0) and \
                                L == padd(pmul(psym(self.dims[0]), W), psym(self.dims[1])):
                            tags |= idx
        if idx and idx <= tags:
            return True
        for t in tags:
            if isinstance(t, tuple) and t[0] == "mod" and ("div", t[1], t[2]) in tags and len(idx) == 1:
                return True
        return False

    def invariant(self, s):
        """A symbol that has the same value in every iteration: not a path that starts at a local of the body."""
        if not isinstance(s, str):
            return False
        if s.startswith("this"):
            return True
        m = re.search(r"#(\d+)", s)
        return bool(m) and int(m.group(1)) in self.outer

    def _is_index(self, s):
        return s in self.dims or (isinstance(s, tuple) and s[0] in ("mod", "div") and s[1] in self.dims)

    def v_ArraySubscriptExpr(self, n, fr):
        b = self.ev(n.c[0], fr)
        i = self.ev(n.c[1], fr)
        if self.owned([i]):
            return V()
        return V(b.to, b.to)

    def v_UnaryOperator(self, n, fr):
        op = n.get("op")
        v = self.ev(n.c[0], fr)
        if op == "&":
            return V(OWN, v.at | v.to if not v.at else v.at, fn=v.fn)
        if op == "*":
            return V(v.to, v.to)
        if op in ("++", "--"):
            self.write(n, v.at, fr, op)
            return v
        if op == "-":
            return V(lo=tuple(padd(P_(0), x, -1) for x in v.hi), hi=tuple(padd(P_(0), x, -1) for x in v.lo))
        return V(lo=v.lo, hi=v.hi) if op == "+" else V()

    def v_BinaryOperator(self, n, fr):
        op = n.get("op")
        a = self.ev(n.c[0], fr)
        b = self.ev(n.c[1], fr)
        if op == "=":
            self.write(n, a.at, fr, "=")
            self.assign(n.c[0], b, fr)
            return a
        if op == ",":
            return b
        if op == "+":
            if (a.to or b.to) and not self._int(n.t):
                return V(OWN, a.to | b.to)
            return V(lo=tuple(padd(x, y) for x in a.lo for y in b.lo)[:6],
                     hi=tuple(padd(x, y) for x in a.hi for y in b.hi)[:6])
        if op == "-":
            if a.to and not self._int(n.t):
                return V(OWN, a.to)
            return V(lo=tuple(self.mod(padd(x, y, -1)) for x in a.lo for y in b.hi)[:6],
                     hi=tuple(self.mod(padd(x, y, -1)) for x in a.hi for y in b.lo)[:6])
        if op == "*":
            for x, y in ((a, b), (b, a)):
                e = exact(x)
                k = pconst(e) if e is not None else None
                if k is not None and k >= 0:
                    return V(lo=tuple(pmul(z, e) for z in y.lo), hi=tuple(pmul(z, e) for z in y.hi))
            p, q = exact(a), exact(b)
            if p is not None and q is not None:
                return ex(pmul(p, q))
            return V()
        if op in ("/", "%"):
            p, q = exact(a), exact(b)
            if p is not None and q is not None:
                for s in self.dims:
                    if p == psym(s):
                        return ex(psym(("div" if op == "/" else "mod", s, q)))
                # a - (a / D) * D is handled by padd with the div symbol
            return V()
        return V()

    def mod(self, p):
        """i - (i / n) * n is i mod n"""
        for s in self.dims:
            d = dict(p)
            if d.get((s,)) != 1:
                continue
            for m, c in p:
                dv = [x for x in m if isinstance(x, tuple) and x[0] == "div" and x[1] == s]
                if not dv:
                    continue
                rest = tuple(x for x in m if x is not dv[0]) if len(dv) == 1 else None
                if rest is not None and frozenset([(rest, -c)]) == dv[0][2]:
                    q = frozenset((a, b) for a, b in p if a not in (m, (s,)))
                    return padd(q, psym(("mod", s, dv[0][2])))
        return p

    def v_CompoundAssignOperator(self, n, fr):
        a = self.ev(n.c[0], fr)
        b = self.ev(n.c[1], fr)
        self.write(n, a.at, fr, n.get("op"))
        self.assign(n.c[0], b, fr)
        return a

    def assign(self, target, v, fr):
        x = target
        while x is not None and x.k in ("ParenExpr", "ImplicitCastExpr", "MemberExpr", "ArraySubscriptExpr") and x.c:
            x = x.c[0]
        if x is not None and x.k == "DeclRefExpr" and x.get("d") in fr.env:
            o = fr.env[x.get("d")]
            if v.fn or ((v.to or v.at) and self.holds(target.t)):
                fr.env[x.get("d")] = V(o.at, o.to | v.to | (v.at if self.holds(target.t) else OWN), o.lo, o.hi,
                                        o.fn + tuple(y for y in v.fn if y not in o.fn))

    def v_ConditionalOperator(self, n, fr):
        vs = [self.ev(x, fr) for x in n.c]
        return join(*vs[1:])

    def v_CXXDefaultInitExpr(self, n, fr):
        return self.default(n, fr)

    def v_CXXNewExpr(self, n, fr):
        vs = [self.ev(x, fr) for x in n.c if x is not None]
        return V(OWN, OWN)

    def v_CXXDeleteExpr(self, n, fr):
        v = self.ev(n.c[0], fr)
        self.write(n, v.to, fr, "delete")
        return V()

    def v_LambdaExpr(self, n, fr):
        for x in n.c:
            if x is not None:
                self.ev(x, fr)
        return V(fn=(Closure(n, fr.env, fr.this, fr),))

    def v_CXXConstructExpr(self, n, fr):
        f = self.P.fns.get(n.get("f"))
        avs = [self.ev(x, fr) for x in n.c]
        ts = self.P.tstr(n.t)
        if "random_device" in ts and not self.hush(fr):
            self.random.setdefault(self.wh(n), (fr.chain, "std::random_device", n))
        if f is None:
            return V(fn=sum((a.fn for a in avs), ()))
        self.call(n, f, V(), avs, list(n.c), fr)
        if not self.holds(n.t):
            return V(fn=sum((a.fn for a in avs), ()))
        cp = f.get("copy") or f.get("move") or (len(avs) == 1 and self.P.deref_type(f.params[0]["t"]) ==
                                                  self.P.deref_type(n.t) if f.params else False)
        if cp or f.ext:
            to = OWN.union(*[a.to for a in avs]) if avs else OWN
            # copying a shared object that holds pointers
            if avs and not avs[0].to and avs[0].at and self.holds(n.t):
                to |= avs[0].at
            return V(OWN, to, fn=sum((a.fn for a in avs), ()))
        to = OWN.union(*[a.to | a.at for a in avs]) if avs else OWN
        return V(OWN, to, fn=sum((a.fn for a in avs), ()))

    v_CXXTemporaryObjectExpr = v_CXXConstructExpr

    def hush(self, fr):
        return any(str(x).startswith(self.quiet) for x in fr.chain) or (fr.fn is not None and
                                                                         fr.fn.key.startswith(self.quiet))

    def v_CallExpr(self, n, fr):
        f = self.P.fns.get(n.get("f"))
        objn, argn = self.args(n)
        obj = None
        if n.k == "CXXMemberCallExpr":
            if objn is not None and objn.k == "MemberExpr" and objn.c:
                b = self.ev(objn.c[0], fr)
                obj = V(b.to, b.to) if objn.get("arrow") else b
            elif objn is not None:
                obj = self.ev(objn, fr)
            else:
                obj = V()
        elif n.k == "CXXOperatorCallExpr" and objn is not None:
            obj = self.ev(objn, fr)
        avs = [self.ev(x, fr) for x in argn]
        if f is None or (f.ext and f.n == "operator()"):
            # a call through a function object or pointer
            cl = obj if obj is not None and obj.fn else (self.ev(n.c[0], fr) if f is None and n.c else obj)
            if cl is not None and cl.fn:
                return join(*[self.invoke(c, avs, n, fr) for c in cl.fn])
            if f is None:
                return V()
        if obj is not None and obj.fn and f.n == "operator()":
            return join(*[self.invoke(c, avs, n, fr) for c in obj.fn])
        return self.call(n, f, obj, avs, argn, fr, nonvirt=n.get("nonvirt"))

    v_CXXMemberCallExpr = v_CXXOperatorCallExpr = v_UserDefinedLiteral = v_CallExpr

    def invoke(self, c, avs, n, fr):
        if not isinstance(c, Closure):
            return self.call(n, c, None, avs, [], fr)
        r = []
        for g in c.node.get("lams", ()):
            lf = self.P.fns.get(g)
            if lf is None or lf.body is None:
                continue
            k = ("lam", g)
            if k in self.active or fr.depth > 25:
                continue
            self.active.add(k)
            env = c.env      # by-reference captures see the environment itself
            for p, a in zip(lf.params, avs):
                env[p["d"]] = self.param(p, a)
            f2 = Frame(lf, c.this, env, fr)
            f2.chain = fr.chain + ("lambda@%d" % c.node.l,)
            self.body(lf, f2)
            self.active.discard(k)
            r.append(join(*f2.rets))
        return join(*r)

    def param(self, p, a):
        t = self.P.ty(p["t"])
        if t["k"] == "ref":
            return a
        if self._int(p["t"]):
            return V(lo=a.lo, hi=a.hi)
        to = a.to
        if not to and a.at and self.holds(p["t"]):
            to = a.at
        return V(OWN, to if self.holds(p["t"]) else OWN, fn=a.fn)

    # ---- calls -------------------------------------------------------------------------------
    def call(self, n, f, obj, avs, argn, fr, nonvirt=False):
        self.calls += 1
        full = f.key or f.q
        if self.blackbox is not None and self.blackbox.search(full):
            return V()
        if UNREPEATABLE.search(full) and not self.hush(fr):
            self.random.setdefault(self.wh(n), (fr.chain, full, n))
        targets = [f]
        if not nonvirt and f.get("virtual"):
            targets = self.P.targets(f.id)
        bodies = [g for g in targets if g.has_body and g.body is not None]
        # an element picked by an index of this iteration
        ints = [a for a, p in zip(avs, f.params) if self._int(p["t"])]
        rt = self.P.ty(f.ret) if f.ret is not None and f.ret >= 0 else {"k": "void"}
        if ints and obj is not None and rt["k"] in ("ref", "ptr") and f.n in ("operator[]", "operator()", "at") \
                and obj.at and self.owned(ints):
            return V()
        if ints and obj is not None and rt["k"] == "ref" and obj.at and self.owned(ints) and len(ints) == len(avs):
            return V()
        if bodies:
            r = [self.inline(g, obj, avs, n, fr) for g in bodies]
            return join(*r)
        return self.extern(n, f, obj, avs, argn, fr, rt)

    def chunky(self, v):
        """The value is where this chunk of iterations begins or ends."""
        for p in v.lo:
            if p in v.hi and any(isinstance(x, tuple) and x[0].startswith("range-") for m, c in p for x in m):
                if not any(isinstance(x, str) and self._is_index(x) for m, c in p for x in m):
                    return True
        return False

    def inline(self, g, obj, avs, n, fr):
        if g.key.startswith(self.quiet):
            return V()
        this = obj if obj is not None else None
        key = (g.id, this.key() if this else None, tuple(a.key() for a in avs), fr.locked)
        closures = any(a.fn for a in avs) or (this is not None and this.fn)
        if key in self.memo and not closures:
            return self.memo[key]
        if key in self.active or fr.depth > 40:
            return V()
        self.active.add(key)
        self.visited.add(g.id)
        env = {}
        for p, a in zip(g.params, avs):
            env[p["d"]] = self.param(p, a)
        f2 = Frame(g, this, env, fr)
        f2.chain = fr.chain + (g.key,)
        for i in g.inits:
            if i["e"] is not None:
                self.ev(i["e"], f2)
        self.body(g, f2)
        self.active.discard(key)
        r = join(*f2.rets) if f2.rets else V()
        rt = self.P.ty(g.ret) if g.ret is not None and g.ret >= 0 else {"k": "void"}
        if rt["k"] != "ref":
            r = V(OWN, r.to | (r.at if self.holds(g.ret) else OWN) if self.holds(g.ret) else OWN, r.lo, r.hi, r.fn)
        self.memo[key] = r
        return r

    def extern(self, n, f, obj, avs, argn, fr, rt):
        P = self.P
        own = f.q if f.q else f.key
        cls = f.clskey or ""
        isptr = bool(POINTERISH.search(cls)) or bool(POINTERISH.search(own.rsplit("::", 1)[0]))
        atomic = "std::atomic" in own or "__atomic" in own
        if f.n not in ("min", "max", "clamp", "to_string", "advance", "next") and not self.hush(fr) and \
                any(self.chunky(a) for a in avs):
            self.random.setdefault(self.wh(n), (fr.chain, "the bounds of the chunk handed to %s" % f.n, n))
        to = OWN
        if obj is not None:
            if not f.const and f.n not in ACCESS and not atomic and not f.get("static"):
                self.write(n, obj.at, fr, f.n)
                if obj.at or obj.to:
                    pass
                else:
                    # a local object takes over what its arguments point to
                    j = OWN.union(*[a.to for a in avs]) if avs else OWN
                    if j and n.c:
                        self.absorb(n, j, fr)
            elif atomic:
                pass
        if f.n in SAFE_C:
            pass
        elif f.n == "local" and re.search("enumerable_thread_specific|combinable", own):
            return V()
        elif f.n.endswith("_c") and f.n[:-2].islower() and not f.key.startswith("std") and f.cls is None:
            self.write(n, [("global", "CSPICE's global state")], fr, f.n)
        else:
            for i, a in enumerate(avs):
                if i >= len(f.params):
                    continue
                t = P.ty(f.params[i]["t"])
                if obj is None and (f.n in PURE):
                    continue
                if t["k"] == "ref" and not self.isconst(t["p"]) and not t["s"].endswith("&&"):
                    if obj is not None and f.n in ("operator()",) or True:
                        self.write(n, a.at, fr, f.n)
                elif t["k"] == "ptr" and not self.isconst(t["p"]) and f.cls is None and not f.key.startswith("std::"):
                    self.write(n, a.to, fr, f.n)
            if f.n in ("copy", "copy_n", "fill", "fill_n", "transform", "sort", "swap", "iota", "memcpy", "memset",
                       "generate", "reverse", "rotate", "stable_sort", "for_each", "replace", "partial_sum",
                       "nth_element", "unique", "remove_if", "accumulate") and f.cls is None:
                which = avs[-1:] if f.n in ("copy", "partial_sum") else avs[:1]
                if f.n in ("copy_n",):
                    which = avs[2:3]
                if f.n in ("transform",):
                    which = avs[2:4]
                if f.n not in ("accumulate", "for_each"):
                    for a in which:
                        self.write(n, a.to, fr, f.n)
        # function objects handed to library algorithms run here
        for a in avs:
            for c in a.fn:
                others = [x for x in avs if x is not a]
                elems = V(OWN.union(*[x.to | x.at for x in others]) if others else OWN)
                k = len(self.P.fns[c.node.get("lam")].params) if isinstance(c, Closure) and \
                    self.P.fns.get(c.node.get("lam")) else 0
                self.invoke(c, [V(elems.at, elems.at)] * k, n, fr)
        # the result
        if rt["k"] == "ref":
            if obj is not None:
                if isptr and f.n in ("operator*", "operator->", "operator[]", "get", "front", "back", "at"):
                    return V(obj.to, obj.to)
                return V(obj.at, obj.to, fn=obj.fn)
            return join(*[V(a.at, a.to, a.lo, a.hi, a.fn) for a in avs]) if f.n not in ("min", "max", "clamp") \
                else self.minmax(f.n, avs)
        if rt["k"] == "ptr":
            if obj is not None:
                return V(OWN, obj.to if isptr else obj.at | obj.to)
            return V(OWN, OWN.union(*[a.to | a.at for a in avs]) if avs else OWN)
        if f.ret is not None and f.ret >= 0 and self.holds(f.ret):
            to = OWN.union(*[a.to for a in avs]) if avs else OWN
            if obj is not None:
                to |= obj.to
                if not isptr:
                    to |= obj.at
            elif f.n in ("begin", "end", "data", "ref", "make_pair", "tie", "span"):
                to |= OWN.union(*[a.at for a in avs])
            return V(OWN, to, fn=sum((a.fn for a in avs), ()))
        if f.n in ("min", "max", "clamp"):
            return self.minmax(f.n, avs)
        # sizes and range ends are invariant symbols
        if f.n in ("size", "width", "height", "rows", "cols") and self._canon(n.c[0]) if n.c else False:
            p = psym(self._canon(n.c[0]) + "." + f.n)
            return V(lo=(p,), hi=(p,))
        return V()

    def absorb(self, n, to, fr):
        x = n.c[0]
        while x is not None and x.c and x.k in ("MemberExpr", "ImplicitCastExpr", "ParenExpr"):
            x = x.c[0]
        if x is not None and x.k == "DeclRefExpr" and x.get("d") in fr.env:
            o = fr.env[x.get("d")]
            fr.env[x.get("d")] = V(o.at, o.to | to, o.lo, o.hi, o.fn)

    def minmax(self, name, avs):
        if name == "clamp":
            return V()
        if len(avs) < 2:
            return V()
        a, b = avs[:2]
        at, to = a.at | b.at, a.to | b.to
        if name == "min":
            return V(at, to, tuple(x for x in a.lo if x in b.lo), a.hi + b.hi)
        return V(at, to, a.lo + b.lo, tuple(x for x in a.hi if x in b.hi))

    # ---- statements --------------------------------------------------------------------------
    def body(self, f, fr):
        if f.body is not None:
            self.st(f.body, fr)

    def st(self, n, fr):
        if n is None:
            return
        k = n.k
        if k == "CompoundStmt":
            was = fr.locked
            for x in n.c:
                self.st(x, fr)
            fr.locked = was
        elif k == "DeclStmt":
            for v in n.c:
                if v is not None and v.k == "Var":
                    self.var(v, fr)
        elif k == "ReturnStmt":
            if n.c and n.c[0] is not None:
                fr.rets.append(self.ev(n.c[0], fr))
        elif k in ("ForStmt", "WhileStmt", "DoStmt"):
            if n.role("init") is not None:
                self.st(n.role("init"), fr)
            if n.role("condvar") is not None:
                self.var(n.role("condvar"), fr)
            sv = self.bounds(n, fr)
            for _ in range(2):
                if n.role("cond") is not None:
                    self.ev(n.role("cond"), fr)
                self.st(n.role("body"), fr)
                if n.role("inc") is not None:
                    self.ev(n.role("inc"), fr)
            for d, v in sv.items():
                fr.env[d] = v
        elif k == "CXXForRangeStmt":
            rng = None
            for x in n.c:
                if x is not None and x.r == "range":
                    for v in x.c:
                        if v is not None and v.k == "Var" and v.role("init") is not None:
                            rng = self.ev(v.role("init"), fr)
                            fr.env[v.get("d")] = rng
            var = n.role("var")
            rng = rng or V()
            for x in (var.c if var is not None else ()):
                if x is not None and x.k == "Var":
                    t = self.P.ty(x.t)
                    if t["k"] == "ref":
                        fr.env[x.get("d")] = V(rng.at, rng.at | rng.to)
                    else:
                        fr.env[x.get("d")] = V(OWN, (rng.at | rng.to) if self.holds(x.t) else OWN)
                    for b in x.get("b", ()) or ():
                        fr.env[b["d"]] = fr.env[x.get("d")]
            for _ in range(2):
                self.st(n.role("body"), fr)
        elif k == "IfStmt":
            for x in n.c:
                if x is None:
                    continue
                if x.r == "condvar":
                    self.var(x, fr)
                elif x.r == "cond":
                    self.ev(x, fr)
                else:
                    self.st(x, fr)
        elif k in ("SwitchStmt", "CaseStmt", "DefaultStmt", "CXXTryStmt", "CXXCatchStmt", "LabelStmt",
                   "AttributedStmt"):
            for x in n.c:
                if x is None:
                    continue
                if x.k == "Var":
                    self.var(x, fr)
                else:
                    self.st(x, fr)
        elif k in ("BreakStmt", "ContinueStmt", "NullStmt", "GotoStmt"):
            pass
        else:
            self.ev(n, fr)

    def var(self, v, fr):
        init = v.role("init")
        if init is None:
            cs = [x for x in v.c if x is not None]
            init = cs[0] if cs else None
        iv = self.ev(init, fr) if init is not None else V()
        t = self.P.ty(v.t)
        d = v.get("d")
        s = self.P.tstr(v.t)
        if v.get("static") or v.get("sl") or v.get("tls"):
            if not (s.startswith("const ") or v.get("constexpr")):
                nm = "the %s %s" % ("thread's" if v.get("tls") else "function-static", v.get("n"))
                fr.env[d] = V(frozenset([("static", nm)]), frozenset([("static", nm)]))
                return
        if re.search(r"std::(lock_guard|unique_lock|scoped_lock)<", s):
            fr.locked = True
        if t["k"] == "ref":
            r = iv
        else:
            to = iv.to
            if not to and iv.at and self.holds(v.t):
                to = iv.at
            r = V(OWN, to if self.holds(v.t) else OWN, iv.lo if self._int(v.t) else (),
                  iv.hi if self._int(v.t) else (), iv.fn)
        muts = self.mutated(v.fn).get(d)
        if muts and t["k"] != "ref":
            r = V(r.at, r.to, (), (), r.fn)
            # a variable that only grows keeps its lower bound
            if all(self.grows(m) for m in muts) and self._int(v.t):
                r = V(r.at, r.to, iv.lo, (), r.fn)
        fr.env[d] = r
        for b in v.get("b", ()) or ():
            fr.env[b["d"]] = V(iv.at if t["k"] == "ref" else OWN, iv.to)
            for e in b["e"]:
                self.ev(e, fr)
        self.declared(v, fr)

    def declared(self, v, fr):
        pass

    def grows(self, m):
        if m.k == "UnaryOperator":
            return m.get("op") == "++"
        if m.k == "CompoundAssignOperator" and m.get("op") == "+=":
            c = m.c[1].get("cv", m.c[1].get("v"))
            return isinstance(c, int) and c > 0
        return False

    def bounds(self, n, fr):
        """Inside the loop, a variable compared with a bound in the condition is below it."""
        c = n.role("cond")
        out = {}
        if c is None or n.k == "DoStmt":
            return out
        parts = [c]
        while parts:
            x = parts.pop()
            while x.k in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr") and x.c:
                x = x.c[0]
            if x.k == "BinaryOperator" and x.get("op") == "&&":
                parts += x.c
                continue
            if x.k != "BinaryOperator" or x.get("op") not in ("<", "<=", "!=", ">", ">="):
                continue
            a, b, op = x.c[0], x.c[1], x.get("op")
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            y = a
            while y.k in ("ParenExpr", "ImplicitCastExpr", "CXXStaticCastExpr") and y.c:
                y = y.c[0]
            pre = 0
            if y.k == "UnaryOperator" and y.get("op") == "++" and not y.get("post") and y.c:
                pre, y = 1, y.c[0]
            if y.k != "DeclRefExpr" or y.get("d") not in fr.env:
                continue
            d = y.get("d")
            old = fr.env[d]
            if pre:
                old = V(old.at, old.to, tuple(padd(z, P_(1)) for z in old.lo), (), old.fn)
            hv = self.ev(b, fr)
            one = self.range_index(old, hv)
            if one is not None:
                out[d] = old
                fr.env[d] = ex(psym(one))
                continue
            if old.at:
                continue
            out[d] = old
            k = 0 if op == "<=" else -1
            hi = tuple(padd(h, P_(k)) for h in hv.hi)
            fr.env[d] = V(old.at, old.to, old.lo, hi, old.fn)
        return out

    def range_index(self, v, hv):
        """begin()..end() of the parallel range: the iteration's index."""
        for L in v.lo:
            for H in hv.hi:
                if len(L) == 1 and len(H) == 1:
                    (m, c), = L
                    (k, e), = H
                    if c == 1 and e == 1 and len(m) == 1 and len(k) == 1 and isinstance(m[0], tuple) and \
                            isinstance(k[0], tuple) and m[0][0] == "range-begin" and k[0][0] == "range-end" and \
                            m[0][1] == k[0][1]:
                        return "i%d" % m[0][1]
        return None


class Parallel(Effects):
    """One call of tbb::parallel_for (or a thread body): which iteration writes what."""

    def __init__(self, P, site, lam, dims, dimlo, dimhi):
        Effects.__init__(self, P)
        self.site = site
        self.lam = lam
        self.dims = dims
        self.dimlo = dimlo
        self.dimhi = dimhi
        self.range_d = None
        self.inloop = 0
        self.carried = {}

    def run(self):
        lf = self.P.fns[self.lam.get("lam")]
        env = {}
        self.lf = lf
        for c in self.lam.get("cap", ()):
            if "d" in c:
                nm = c["n"]
                self.outer.add(c["d"])
                at = frozenset([("shared", nm)])
                p = psym("%s#%s" % (nm, c["d"]))
                cv = None
                env[c["d"]] = V(at, at, (p,), (p,)) if self._int(c["t"]) else V(at, at)
                g = self.outer_lambda(c["d"])
                if g is not None:
                    env[c["d"]] = V(at, at, fn=(g,))
        # constants among the captured variables
        this = V(frozenset([("shared", "this")]), frozenset([("shared", "this")]))
        if lf.params:
            self.range_d = lf.params[0]["d"]
            env[self.range_d] = V()
            if "blocked_range" not in self.P.tstr(lf.params[0]["t"]):
                env[self.range_d] = ex(psym(self.dims[0])) if self.dims else V()
        fr = Frame(lf, this, env)
        fr.chain = ()
        self.top = fr
        self.body(lf, fr)
        return self

    def outer_lambda(self, d):
        """A captured variable that is itself a lambda of the enclosing function."""
        f = self.site.fn
        for n in f.walk():
            if n.k == "Var" and n.get("d") == d:
                for x in n.walk():
                    if x.k == "LambdaExpr":
                        env = {}
                        for c in x.get("cap", ()):
                            if "d" in c:
                                at = frozenset([("shared", c["n"])])
                                p = psym("%s#%s" % (c["n"], c["d"]))
                                env[c["d"]] = V(at, at, (p,), (p,)) if self._int(c["t"]) else V(at, at)
                        this = V(frozenset([("shared", "this")]), frozenset([("shared", "this")]))
                        return Closure(x, env, this, None)
        return None

    def v_CallExpr(self, n, fr):
        # range.begin(), range.rows().begin(), ...
        if n.k == "CXXMemberCallExpr":
            f = self.P.fns.get(n.get("f"))
            if f is not None and f.n in ("begin", "end", "size"):
                m, _ = self.args(n)
                b = m.c[0] if m is not None and m.c else None
                while b is not None and b.k in ("ImplicitCastExpr", "ParenExpr") and b.c:
                    b = b.c[0]
                dim = None
                if b is not None and b.k == "DeclRefExpr" and b.get("d") == self.range_d:
                    dim = 0
                elif b is not None and b.k == "CXXMemberCallExpr":
                    g = self.P.fns.get(b.get("f"))
                    m2, _ = self.args(b)
                    r = m2.c[0] if m2 is not None and m2.c else None
                    while r is not None and r.k in ("ImplicitCastExpr", "ParenExpr") and r.c:
                        r = r.c[0]
                    if g is not None and r is not None and r.k == "DeclRefExpr" and r.get("d") == self.range_d:
                        dim = {"pages": 0, "rows": 0, "cols": 1}.get(g.n)
                if dim is not None:
                    return ex(psym(("range-" + f.n, dim)))
        return Effects.v_CallExpr(self, n, fr)

    v_CXXMemberCallExpr = v_CXXOperatorCallExpr = v_UserDefinedLiteral = v_CallExpr

    # what an iteration leaves behind for the next one of the same chunk
    def st(self, n, fr):
        if n is not None and fr.fn is self.lf and n.k in ("ForStmt", "WhileStmt") and self.is_range_loop(n):
            self.inloop += 1
            Effects.st(self, n, fr)
            self.inloop -= 1
            return
        Effects.st(self, n, fr)

    def is_range_loop(self, n):
        c = n.role("cond")
        for x in (c.walk() if c is not None else ()):
            if x.k == "CXXMemberCallExpr":
                f = self.P.fns.get(x.get("f"))
                if f is not None and f.n == "end" and "blocked_range" in (f.clskey or f.q):
                    return True
        return False

    def declared(self, v, fr):
        if fr.fn is self.lf and not self.inloop:
            # an object that lives as long as the chunk of iterations
            if any(self.is_range_loop(x) for x in v.ancestors() if x.k in ("ForStmt", "WhileStmt")):
                return
            t = self.P.ty(v.t)
            if t["k"] == "ref" or self.P.tstr(v.t).startswith("const "):
                return
            r = fr.env[v.get("d")]
            if r.lo and any(isinstance(m[0], tuple) and m[0][0] == "range-begin" for L in r.lo for m, c in L if m):
                return
            nm = ("chunk", "%s (kept from one iteration of a chunk to the next)" % v.get("n"))
            if self.first_is_assignment(v):
                return
            fr.env[v.get("d")] = V(r.at | frozenset([nm]), r.to, r.lo, r.hi, r.fn)

    def first_is_assignment(self, v):
        d = v.get("d")
        for n in self.lf.walk():
            if n.k in ("ForStmt", "WhileStmt") and self.is_range_loop(n):
                for x in n.walk():
                    if x.k == "BinaryOperator" and x.get("op") == "=" and x.c[0].k == "DeclRefExpr" and \
                            x.c[0].get("d") == d:
                        if not any(y.k == "DeclRefExpr" and y.get("d") == d for y in x.c[1].walk()):
                            return True
                    if x.k == "DeclRefExpr" and x.get("d") == d:
                        return False
        return False


def unwrap(x):
    while x is not None and x.k in ("ImplicitCastExpr", "ParenExpr", "CXXFunctionalCastExpr", "ExprWithCleanups",
                                    "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and x.c:
        x = x.c[0]
    return x


def sites(P):
    """Calls that run a lambda in parallel: (call node, lambda node, index names, lower and upper bounds)."""
    out = []
    bad = []
    for f in P.defs:
        if f.file is None or f.file.startswith("/") or f.body is None:
            continue
        for n in f.walk():
            if n.k not in ("CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXMemberCallExpr"):
                continue
            g = P.fns.get(n.get("f"))
            if g is None:
                continue
            q = g.q or g.key
            par = q.startswith("tbb::") and g.n.startswith("parallel_") or g.key == "std::async" or \
                re.match(r"std::(j?thread)::(j?thread)$", g.key or "") or \
                (q.startswith("tbb::") and g.n in ("run", "run_and_wait", "enqueue", "execute")) or \
                "__pstl" in (g.key or "")
            if not par:
                continue
            lam = None
            for x in n.walk():
                if x.k == "LambdaExpr":
                    lam = x
                    break
            args = n.c[1:] if n.k in ("CallExpr", "CXXMemberCallExpr") else n.c
            if lam is None:
                # a lambda kept in a local variable
                for a in args:
                    y = unwrap(a)
                    if y is not None and y.k in ("CXXConstructExpr",) and y.c:
                        y = unwrap(y.c[0])
                    if y is not None and y.k == "DeclRefExpr":
                        for z in f.walk():
                            if z.k == "Var" and z.get("d") == y.get("d"):
                                for w in z.walk():
                                    if w.k == "LambdaExpr":
                                        lam = w
                                        break
            rng = unwrap(args[0]) if args else None
            hops = 0
            while rng is not None and rng.k == "DeclRefExpr" and hops < 3:
                hops += 1
                nx = None
                for z in f.walk():
                    if z.k == "Var" and z.get("d") == rng.get("d"):
                        nx = z.role("init") or (z.c[0] if z.c else None)
                rng = unwrap(nx)
            while rng is not None and rng.k == "CXXConstructExpr" and len(rng.c) == 1 and \
                    unwrap(rng.c[0]) is not None and unwrap(rng.c[0]).k in ("CXXConstructExpr",
                                                                               "CXXTemporaryObjectExpr"):
                rng = unwrap(rng.c[0])
            out.append((f, n, lam, rng, g))
    return out


def analyse(P, f, n, lam, rng, g):
    dims, lo, hi = ["i0"], {}, {}
    if rng is not None and rng.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        E = Effects(P)
        fr = Frame(f, V(frozenset([("shared", "this")]), frozenset([("shared", "this")])), {})
        vals = []
        for x in rng.c:
            v = E.ev(x, fr)
            e = exact(v)
            if e is None:
                y = unwrap(x)
                while y is not None and y.k.endswith("CastExpr") and y.c:
                    y = y.c[0]
                cn = E._canon(y) if y is not None else None
                e = psym(cn) if cn else None
            vals.append(e)
        ints = [v for x, v in zip(rng.c, vals)]
        two = "blocked_range2d" in P.tstr(rng.t)
        if two:
            dims = ["i0", "i1"]
            lo["i0"], hi["i0"] = (vals + [None] * 4)[0], (vals + [None] * 4)[1]
            if len(vals) == 4:
                lo["i1"], hi["i1"] = vals[2], vals[3]
            elif len(vals) == 6:
                lo["i1"], hi["i1"] = vals[3], vals[4]
        elif len(vals) >= 2:
            lo["i0"], hi["i0"] = vals[0], vals[1]
    return Parallel(P, n, lam, dims, lo, hi).run()
