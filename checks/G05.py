"""G05: no value is used before it is set.

Definite-assignment analysis, field by field, on the syntax trees of every function of the instantiated library.  A
scalar, pointer, GLM vector or array is unset when it is created without a value; so is each such field of a class whose
default initialisation leaves it out.  Two rules: (1) when a constructor of a class with private state or a written
constructor returns, every field of the object is set on every path (helpers it calls on the object are followed);
(2) no local variable, nor field of one, is read on a path on which it has not been set.
An assignment through a loop sets an array when the loop covers its whole extent.
"""
import re

STRIP = ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXStaticCastExpr",
         "CXXFunctionalCastExpr", "CStyleCastExpr", "ConstantExpr", "CXXBindTemporaryExpr", "SubstNonTypeTemplateParmExpr")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")
ARRAY = re.compile(r"^(?:const )?(?:std::array<.*?(\d+)(?:UL)?>|[^<>]*\[(\d+)\]|glm::vec<(\d), .*|glm::mat<(\d), .*)$")


def strip(n):
    while n is not None and n.k in STRIP and n.c:
        n = n.c[-1] if n.k in ("CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr") and len(n.c) > 1 else n.c[0]
    return n


def straight(body):
    """The statements (and conditions) of a body that every execution reaches: up to the first early exit."""
    for x in body.c:
        if x is None:
            continue
        if x.k == "IfStmt":
            c = x.role("cond")
            if c is not None:
                yield c
            if any(y.k in ("ReturnStmt", "CXXThrowExpr") for y in x.walk()):
                return
            continue
        if x.k in ("DeclStmt", "ExprWithCleanups", "BinaryOperator", "CXXOperatorCallExpr", "CallExpr", "CXXMemberCallExpr", "CompoundAssignOperator", "ReturnStmt"):
            if not any(y.k in ("ConditionalOperator", "LambdaExpr") or y.k == "BinaryOperator" and y.get("op") in ("&&", "||") for y in x.walk()):
                yield x
        if x.k == "ReturnStmt":
            return


class Types:
    def __init__(self, P):
        self.P = P
        recs = P.records.values() if isinstance(P.records, dict) else P.records
        self.recs = {r["id"]: r for r in recs}
        self.by_t = {}
        for r in self.recs.values():
            if r.get("t") is not None:
                self.by_t.setdefault(P.ty(r["t"])["s"], r)
        self.ctors = {}
        for f in P.fns.values():
            if f.key and f.key.endswith("(ctor)") and f.cls:
                self.ctors.setdefault(f.cls, []).append(f)
        self.memo = {}
        self.rmemo = {}
        self.umemo = {}

    def name(self, t):
        return re.sub(r"^((const|volatile|mutable) )+", "", self.P.ty(t)["s"])

    def rec(self, t):
        return self.by_t.get(self.name(t))

    def size(self, t):
        m = ARRAY.match(self.name(t))
        return int(next(g for g in m.groups() if g)) if m else None

    def unset(self, t):
        """What default initialisation of the type leaves unset: () nothing, (0,) all of it, (fields...)"""
        s = self.name(t)
        if s in self.memo:
            return self.memo[s]
        self.memo[s] = ()
        k = self.P.ty(t)["k"]
        r = ()
        if k in ("int", "float", "bool", "enum", "ptr"):
            r = (0,)
        elif re.match(r"glm::(vec|mat|qua)<", s):
            r = (0,)
        elif re.match(r"std::array<", s):
            m = re.match(r"std::array<(.*), \d+(UL)?>$", s)
            e = m.group(1) if m else ""
            r = (0,) if re.match(r"(const )?((unsigned |signed )?(int|long|char|short|float|double|bool)|std::u?int\w+_t|std::size_t|glm::(vec|mat))\b", e) else ()
        elif re.search(r"\[\d+\]$", s):
            e = s[:s.rindex("[")].strip()
            r = (0,) if re.match(r"((unsigned |signed )?(int|long|char|short|float|double|bool)|std::u?int\w+_t|std::size_t|glm::(vec|mat)|.*\*)\b", e) else ()
        else:
            rr = self.rec(t)
            if rr is not None and rr["q"].startswith("huira"):
                r = self.record(rr)
        self.memo[s] = r
        return r

    def uses(self, h, j, seen=()):
        """The fields of its j-th argument (taken by value or const reference) that a function always reads as such:
        those it names, itself or in a function of the library it passes the argument on to."""
        key = (h.id, j)
        if key in self.umemo:
            return self.umemo[key]
        self.umemo[key] = frozenset()
        out = set()
        if h.has_body and h.body is not None and h.key.startswith("huira") and j < len(h.params):
            d = h.params[j]["d"]
            if d:
                # only what it reads before it can leave on some other ground: the straight-line part
                for x in straight(h.body):
                    for y in x.walk():
                        if y.k == "MemberExpr" and y.get("dk") == "field" and y.c and strip(y.c[0]).k == "DeclRefExpr" and strip(y.c[0]).get("d") == d:
                            out.add(y.get("d"))
        self.umemo[key] = frozenset(out)
        return self.umemo[key]

    def garbage(self, rr):
        return [x for x in rr["fields"] if not x.get("hasinit") and self.unset(x["t"])]

    def record(self, rr):
        if rr["id"] in self.rmemo:
            return self.rmemo[rr["id"]]
        self.rmemo[rr["id"]] = ()
        dc = [f for f in self.ctors.get(rr["id"], ()) if not f.params]
        if dc and dc[0].has_body and dc[0].body is not None:
            left = Flow(self, dc[0]).constructor(rr)
            r = tuple(x["d"] for x in left)
        elif dc or not self.ctors.get(rr["id"]):
            r = tuple(x["d"] for x in self.garbage(rr))
        else:
            r = ()
        self.rmemo[rr["id"]] = r
        return r


class Flow:
    """State: frozenset of set places ((root, field, index)); None when the point cannot be reached."""

    def __init__(self, T, fn, depth=0):
        self.T, self.P, self.fn, self.depth = T, T.P, fn, depth
        self.track = {}      # root -> type of what is tracked (locals) / record (this)
        self.bad = {}
        self.reads = 0
        self.rets = []
        self.loops = []
        self.members = {}
        self.later = {}      # loop variable -> what holds when an earlier iteration has ended
        self.within = []     # lambdas being passed through
        self.counted = {}    # counter of a loop being passed first -> what holds where it is incremented

    # -- places ------------------------------------------------------------------------------------------------
    def place(self, n):
        """(root, field, index, size of the indexed array) of an lvalue expression, or None"""
        n = strip(n)
        if n is None:
            return None
        if n.k == "DeclRefExpr" and n.get("d") in self.track:
            return (n.get("d"), 0, None)
        if n.k == "CXXThisExpr" and "this" in self.track:
            return ("this", 0, None)
        if n.k == "UnaryOperator" and n.get("op") == "*":
            p = self.place(n.c[0])
            return p if p and p[0] == "this" else None
        if n.k == "MemberExpr" and n.get("dk") == "field" and n.c:
            p = self.place(n.c[0])
            if p is None:
                return None
            if p[1] == 0:
                if (p[0] == "this" or self.fieldwise(p[0])):
                    return (p[0], n.get("d"), None)
                # a component of a GLM vector
                c = "xyzw".find(n.get("n", "?")) if len(n.get("n", "")) == 1 else "rgba".find(n.get("n", "?"))
                return (p[0], 0, c) if c >= 0 else p
            if p[2] is None:
                c = "xyzw".find(n.get("n", "?")) if len(n.get("n", "")) == 1 else -1
                return (p[0], p[1], c if c >= 0 and self.T.size(n.c[0].t) else None) if c >= 0 else p
            return p
        if n.k == "ArraySubscriptExpr" and len(n.c) == 2:
            return self.element(n.c[0], n.c[1])
        if n.k == "CXXOperatorCallExpr" and len(n.c) == 3:
            g = self.P.fns.get(n.get("f"))
            if g is not None and g.n == "operator[]":
                return self.element(n.c[1], n.c[2])
        if n.k == "CXXMemberCallExpr" and n.c:
            g = self.P.fns.get(n.get("f"))
            if g is not None and g.n == "at" and len(n.c) == 2 and n.c[0].k == "MemberExpr":
                return self.element(n.c[0].c[0], n.c[1])
        return None

    def fieldwise(self, root):
        return root in self.members

    def element(self, base, idx):
        p = self.place(base)
        if p is None or p[2] is not None:
            return p
        i = strip(idx)
        c = idx.get("cv", i.get("cv", i.get("v")))
        if isinstance(c, int):
            return (p[0], p[1], c)
        if i.k == "DeclRefExpr":
            return (p[0], p[1], ("v", i.get("d")))
        return (p[0], p[1], "?")

    def tracked(self, p):
        """Is the place (or a part of it) something that starts unset?"""
        root, fd = p[0], p[1]
        return fd in self.track[root] if fd else bool(self.track[root])

    def isset(self, st, p, size=None):
        root, fd, ix = p
        if (root, 0, None) in st or (root, fd, None) in st or p in st:
            return True
        if fd == 0 and self.fieldwise(root):
            return all((root, d, None) in st or d not in self.track[root] for d in self.members[root])
        if fd and fd not in self.track[root]:
            return True
        if ix is None:
            n = self.members.get(root, {}).get(fd) if fd else self.track[root][0]
            if isinstance(n, int) and n and all((root, fd, i) in st for i in range(n)):
                return True
            return False
        return any(q[0] == root and q[1] == fd and q[2] is not None for q in st)    # some element: be generous

    def put(self, st, p):
        if st is None:
            return None
        root, fd, ix = p
        st = frozenset(q for q in st if q[:2] != (root, fd) or q[2] not in ("true", "false")) if fd else st
        st = st | {p}
        if fd == 0 and ix is None and self.fieldwise(root):
            st = st | {(root, d, None) for d in self.members[root]}
        if ix is not None:
            n = self.members.get(root, {}).get(fd) if fd else self.track[root][0]
            if isinstance(n, int) and n and all((root, fd, i) in st for i in range(n)):
                st = st | {(root, fd, None)}
        return st

    # -- expressions -------------------------------------------------------------------------------------------
    def read(self, n, p, st):
        if st is None or not self.tracked(p):
            return
        self.reads += 1
        if p[1] == 0 and p[2] is None and self.fieldwise(p[0]):
            # a copy of a whole object: only if nothing of it has been set
            if not self.isset(st, p) and not any(q[0] == p[0] for q in st):
                self.flag(n, p)
        elif not self.isset(st, p):
            self.flag(n, p)

    def flag(self, n, p):
        self.bad.setdefault(p[:2], (n.l, self.label(p)))

    def label(self, p):
        if p[0] == "this":
            return self.names.get(p[1], "*this")
        return self.names.get(p[0], "?") + ("." + self.names.get(p[1], "?") if p[1] else "")

    names = {}

    def ev(self, n, st):
        """Evaluates an expression; returns the state after it."""
        if n is None or st is None:
            return st
        k = n.k
        if k in STRIP:
            for x in n.c:
                st = self.ev(x, st)
            return st
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            t, f = self.cond(n, st)
            return self.join(t, f)
        if k == "ConditionalOperator":
            t, f = self.cond(n.c[0], st)
            return self.join(self.ev(n.c[1], t), self.ev(n.c[2], f))
        if k == "BinaryOperator" and n.get("op") == "=":
            st = self.ev(n.c[1], st)
            return self.assign(n.c[0], st)
        if k == "CXXThrowExpr":
            for x in n.c:
                st = self.ev(x, st)
            return None
        if k == "LambdaExpr":
            return self.closure(n, st)
        if k in ("UnaryExprOrTypeTraitExpr", "CXXNoexceptExpr", "TypeTraitExpr", "DeclStmt") and k != "DeclStmt":
            return st
        if k == "UnaryOperator" and n.get("op") == "++" and self.counted and strip(n.c[0]).get("d") in self.counted:
            self.counted[strip(n.c[0]).get("d")].append(st)
            return st
        if k == "UnaryOperator" and n.get("op") == "--" and strip(n.c[0]).k == "DeclRefExpr":
            return self.ev(n.c[0], st) | {("dec", strip(n.c[0]).get("d"), None)}
        if k == "UnaryOperator" and n.get("op") == "&":
            p = self.place(n.c[0])
            if p is not None and p[0] != "this":
                return self.put(st, (p[0], p[1], None))
            if p is not None:
                return self.put(st, (p[0], p[1], None)) if p[1] else st
            return self.ev(n.c[0], st)
        if k in CALLS:
            return self.call(n, st)
        p = self.place(n)
        if p is not None:
            if k == "UnaryOperator":
                return st
            for x in self.indices(n):
                st = self.ev(x, st)
            if p[0] == "this" and p[1] == 0:
                return st
            self.read(n, p, st)
            return st
        for x in n.c:
            st = self.ev(x, st)
        return st

    def indices(self, n):
        n = strip(n)
        if n is None:
            return
        if n.k == "ArraySubscriptExpr":
            yield n.c[1]
            yield from self.indices(n.c[0])
        elif n.k == "CXXOperatorCallExpr":
            yield n.c[2]
            yield from self.indices(n.c[1])
        elif n.k == "CXXMemberCallExpr":
            yield from n.c[1:]
            yield from self.indices(n.c[0].c[0])
        elif n.k == "MemberExpr" and n.c:
            yield from self.indices(n.c[0])

    def assign(self, l, st):
        if st is None:
            return None
        p = self.place(l)
        if p is None:
            return self.ev(l, st)
        for x in self.indices(l):
            st = self.ev(x, st)
        if p[0] == "this" and p[1] == 0:
            return self.put(st, p)
        return self.put(st, p)

    def cond(self, n, st):
        """(state if true, state if false)"""
        if st is None or n is None:
            return st, st
        m = strip(n)
        if m.k == "UnaryOperator" and m.get("op") == "!":
            t, f = self.cond(m.c[0], st)
            return f, t
        if m.k == "BinaryOperator" and m.get("op") == "&&":
            t, f = self.cond(m.c[0], st)
            t2, f2 = self.cond(m.c[1], t)
            return t2, self.join(f, f2)
        if m.k == "BinaryOperator" and m.get("op") == "||":
            t, f = self.cond(m.c[0], st)
            t2, f2 = self.cond(m.c[1], f)
            return self.join(t, t2), f2
        c = n.get("cv", m.get("cv", m.get("v") if m.k in ("CXXBoolLiteralExpr", "IntegerLiteral") else None))
        p = self.place(m) if m.k == "MemberExpr" else None
        if p is not None and p[0] == "this" and p[1]:
            c = 1 if p[:2] + ("true",) in st else 0 if p[:2] + ("false",) in st else c
        if m.k == "BinaryOperator" and m.get("op") in (">", "!=", ">="):
            a, b = strip(m.c[0]), strip(m.c[1])
            k = m.c[1].get("cv", b.get("cv", b.get("v")))
            if a.k == "DeclRefExpr" and a.get("d") in self.later and k == (1 if m.get("op") == ">=" else 0):
                st = self.ev(n, st)
                more = self.later[a.get("d")]
                return (None if more is None else st | more), st
        st = self.ev(n, st)
        if c is not None and not isinstance(c, str):
            return (st, None) if c else (None, st)
        return st, st

    def join(self, a, b):
        return b if a is None else a if b is None else a & b

    def inplace(self, g, n, a):
        """the lambda, if the callee (a standard or TBB algorithm) runs it before it returns"""
        if g is None or g.get("externc") or not re.match(r"(std|tbb|oneapi|glm)::", g.q or g.key or ""):
            return None
        b = strip(a)
        while b is not None and b.k in CALLS and len(b.c) == 1:
            b = strip(b.c[0])
        return b if b is not None and b.k == "LambdaExpr" else None

    def call(self, n, st):
        g = self.P.fns.get(n.get("f"))
        k = n.k
        args = list(n.c)
        if k == "CallExpr":
            args = args[1:]
        if k == "CXXOperatorCallExpr":
            args = args[1:]
        obj = None
        if k == "CXXMemberCallExpr":
            me = args.pop(0)
            obj = me.c[0] if me is not None and me.k == "MemberExpr" and me.c else me
        elif k == "CXXOperatorCallExpr" and g is not None and g.cls:
            obj = args.pop(0) if args else None
        if k == "CXXOperatorCallExpr" and g is not None and g.n == "operator=" and obj is not None and self.place(obj) is not None:
            p, q = self.place(obj), self.place(args[0]) if len(args) == 1 else None
            if q is not None and p[1] == 0 and q[1] == 0 and self.fieldwise(p[0]) and self.fieldwise(q[0]) and p[0] != q[0]:
                self.read(n, q, st)
                st = frozenset(x for x in st if x[0] != p[0])
                return st | {(p[0], d, None) for d in self.members[p[0]] if self.isset(st, (q[0], d, None))}
            for a in args:
                st = self.ev(a, st)
            return self.assign(obj, st)
        if g is not None and g.n == "operator[]" and self.place(n) is not None or g is not None and g.n == "at" and self.place(n) is not None:
            for x in self.indices(n):
                st = self.ev(x, st)
            self.read(n, self.place(n), st)
            return st
        ps = g.params if g is not None else []
        late = []
        for j, a in enumerate(args):
            if a is None or st is None:
                continue
            lam = self.inplace(g, n, a)
            if lam is not None:
                late.append(lam)
                continue
            p = self.place(a)
            ty = self.P.ty(ps[j]["t"]) if j < len(ps) else None
            if p is not None and ty is not None and ty["k"] == "ref" and not self.P.ty(ty["p"])["s"].startswith("const "):
                for x in self.indices(a):
                    st = self.ev(x, st)
                st = self.put(st, (p[0], p[1], None)) if not (p[0] == "this" and p[1] == 0) else self.put(st, p)
                continue
            if p is not None and p[:2] != ("this", 0) and ty is not None and ty["k"] == "ptr" and not self.P.ty(ty["p"])["s"].startswith("const ") \
                    and "[" in self.T.name(strip(a).t):
                st = self.put(st, (p[0], p[1], None))
                continue
            if p is not None and p[1] == 0 and self.fieldwise(p[0]) and p[0] != "this" and g is not None:
                for h in (self.P.targets(g.id) if g.get("virtual") and not n.get("nonvirt") else [g]):
                    for d in self.T.uses(h, j):
                        if not self.isset(st, (p[0], d, None)):
                            self.flag(n, (p[0], d, None))
                        self.reads += 1
                if g.n in ("operator=", "push_back", "emplace_back", "push_front", "emplace", "insert") or g.get("sp") in ("copy", "move") or \
                        re.match(r"std::.*\(ctor\)$", g.key or ""):
                    for d in self.track[p[0]]:
                        if not self.isset(st, (p[0], d, None)):
                            self.flag(n, (p[0], d, None))
            st = self.ev(a, st)
        if obj is not None and st is not None:
            st = self.method(n, g, obj, args, st)
        if g is not None and g.n in ("fill", "fill_n", "memset", "iota") and (g.q or "").startswith("std") and args:
            pass
        for lam in late:
            st = self.inline(lam, st)
        if g is not None and g.get("noreturn"):
            return None
        # iterators of an array handed to an algorithm: std::fill(begin, end) covers it, a copy of n values need not
        if g is not None and re.match(r"std::(fill|generate|iota|fill_n)$", g.key or g.q or "") and args:
            for a in args[:1]:
                for x in a.walk():
                    p = self.place(x)
                    if p is not None and p[0:2] != ("this", 0):
                        st = self.put(st, (p[0], p[1], None))
        return st

    def method(self, n, g, obj, args, st):
        p = self.place(obj)
        if p is None:
            return self.ev(obj, st)
        for x in self.indices(obj):
            st = self.ev(x, st)
        if g is None:
            return self.put(st, p)
        if p == ("this", 0, None):
            return self.helper(g, st)
        if g.clskey and not g.clskey.startswith("huira"):
            if g.n == "fill":
                return self.put(st, (p[0], p[1], None))
            if g.n in ("begin", "end", "data", "size", "empty", "max_size", "cbegin", "cend", "rbegin", "rend", "length"):
                return st
            if g.const:
                self.read(n, p, st)
                return st
            return self.put(st, (p[0], p[1], None))
        if g.const:
            self.read(n, p, st)
            return st
        return self.put(st, (p[0], p[1], None))

    def helper(self, g, st):
        """A member function called on the object under construction."""
        if not g.has_body or g.body is None or self.depth > 6 or g.get("static"):
            return st
        if g.get("virtual"):
            pass
        sub = Flow(self.T, g, self.depth + 1)
        sub.track, sub.members, sub.names = {"this": self.track["this"]}, {"this": self.members["this"]}, self.names
        mine = frozenset(x for x in st if x[0] == "this")
        out = sub.run(g.body, mine)
        for p, w in sub.bad.items():
            if p[0] == "this":
                self.bad.setdefault(p, w)
        self.reads += sub.reads
        return None if out is None else (st - mine) | out

    def closure(self, n, st):
        """A closure kept for later: what it sets counts as set, what it reads is not known to be read now."""
        for x in n.walk():
            if x.k == "BinaryOperator" and x.get("op") == "=" or x.k == "CXXOperatorCallExpr" or x.k == "CompoundAssignOperator":
                p = self.place(x.c[0] if x.k != "CXXOperatorCallExpr" else x.c[1] if len(x.c) > 1 else None)
                if p is not None:
                    st = self.put(st, (p[0], p[1], None))
            elif x.k in CALLS:
                for y in x.c:
                    p = self.place(y) if y is not None else None
                    if p is not None and p[0] != "this":
                        st = self.put(st, (p[0], p[1], None))
        return st

    def inline(self, lam, st):
        h = self.P.fns.get(lam.get("lam"))
        if h is None or not h.has_body or h.body is None:
            return self.closure(lam, st)
        keep = self.rets, self.loops
        self.rets, self.loops = [], []
        self.within = self.within + [h]
        out = self.stmt(h.body, st)
        self.within = self.within[:-1]
        for r in self.rets:
            out = self.join(out, r)
        self.rets, self.loops = keep
        return out if out is not None else st

    # -- statements --------------------------------------------------------------------------------------------
    def run(self, body, st):
        st = self.stmt(body, st)
        for r in self.rets:
            st = self.join(st, r)
        return st

    def declare(self, v, st):
        if v is None or v.k != "Var" or st is None:
            return st
        init = v.role("init")
        d = v.get("d")
        if init is None:
            rest = [x for x in v.c if x is not None]
            init = rest[0] if rest else None
        fresh = init is None or (strip(init).k == "CXXConstructExpr" and not strip(init).c and not strip(init).get("zero"))
        if fresh and v.t is not None and not v.get("static") and self.P.ty(v.t)["k"] != "ref":
            u = self.T.unset(v.t)
            if u:
                self.names = dict(self.names)
                self.names[d] = v.get("n")
                st = frozenset(q for q in st if q[0] != d)
                if u == (0,):
                    self.track[d] = {0: self.T.size(v.t)}
                    self.members.pop(d, None)
                else:
                    rr = self.T.rec(v.t)
                    self.track[d] = {x: 1 for x in u}
                    self.members[d] = {x["d"]: self.T.size(x["t"]) for x in rr["fields"]}
                    for x in rr["fields"]:
                        self.names[x["d"]] = x["n"]
                return st
        if init is not None:
            # a reference to a tracked place: it may be set through it
            if v.t is not None and self.P.ty(v.t)["k"] == "ref":
                p = self.place(init)
                if p is not None:
                    if p[0] == "this" and p[1] == 0:
                        return st
                    return self.put(st, (p[0], p[1], None))
            st = self.ev(init, st)
        return st

    def covers(self, n):
        """(loop variable, trip count or size owner) of `for (i = 0; i < N; ++i)`"""
        init, c, inc = n.role("init"), n.role("cond"), n.role("inc")
        v = None
        if init is not None:
            for x in init.walk():
                if x.k == "Var":
                    v = x
                    break
        if v is None or c is None or inc is None:
            return None, None
        i0 = v.role("init")
        z = strip(i0) if i0 is not None else None
        if z is None or i0.get("cv", z.get("cv", z.get("v"))) != 0:
            return None, None
        if any(x.k == "UnaryOperator" and x.get("op") == "--" or x.k == "CompoundAssignOperator" for x in inc.walk()):
            return None, None
        c = strip(c)
        if c.k != "BinaryOperator" or c.get("op") not in ("<", "!=", "<="):
            return None, None
        a = strip(c.c[0])
        if a.k != "DeclRefExpr" or a.get("d") != v.get("d"):
            return None, None
        b = strip(c.c[1])
        bound = c.c[1].get("cv", b.get("cv", b.get("v") if b.k == "IntegerLiteral" else None))
        if bound is None and b.k == "CallExpr":
            bound = "size"
        if b.k == "CXXMemberCallExpr":
            g = self.P.fns.get(b.get("f"))
            if bound is None and g is not None and g.n == "size":
                bound = "size"
        if isinstance(bound, int) and c.get("op") == "<=":
            bound += 1
        return v.get("d"), bound

    def counter(self, n):
        """(variable, counted in the condition) of `while (++i < N)` from -1 or `while (i < N) { .. ++i; .. }` from 0"""
        c = n.role("cond")
        c = strip(c) if c is not None else None
        if c is None or c.k != "BinaryOperator" or c.get("op") not in ("<", "!=", "<="):
            return None, False
        a = strip(c.c[0])
        first = a.k == "UnaryOperator" and a.get("op") == "++" and not a.get("postfix")
        if first:
            a = strip(a.c[0])
        if a.k != "DeclRefExpr":
            return None, False
        d, top, ups = a.get("d"), None, 0
        for x in (y for h in [self.fn] + self.within for y in h.walk()):
            if x.k == "Var" and x.get("d") == d:
                top = x
            if x.k in ("BinaryOperator", "CompoundAssignOperator") and "=" in str(x.get("op")) and x.get("op") not in ("==", "!=", "<=", ">="):
                l = strip(x.c[0])
                if l.k == "DeclRefExpr" and l.get("d") == d:
                    return None, False
            if x.k == "UnaryOperator" and x.get("op") in ("++", "&") and strip(x.c[0]).get("d") == d:
                ups += 1
        here = sum(1 for x in n.walk() if x.k == "UnaryOperator" and x.get("op") == "++" and strip(x.c[0]).get("d") == d)
        i0 = top.role("init") if top is not None else None
        z = strip(i0) if i0 is not None else None
        if z is None or here != ups:
            return None, False
        v = i0.get("cv", z.get("cv", z.get("v")))
        if z.k == "UnaryOperator" and z.get("op") == "-" and v is None:
            w = strip(z.c[0])
            v = w.get("cv", w.get("v"))
            v = -v if isinstance(v, int) else None
        if first:
            return (d, True) if v == -1 and here == 1 else (None, False)
        return (d, False) if v == 0 and here else (None, False)

    def loop(self, n, st):
        k = n.k
        if st is None:
            return None
        self.loops.append(([], []))
        var = bound = None
        if k == "ForStmt":
            init = n.role("init")
            if init is not None:
                st = self.stmt(init, st)
            var, bound = self.covers(n)
        if k == "CXXForRangeStmt":
            rng = n.role("range")
            for x in n.c:
                if x is not None and x is not n.role("body"):
                    p = None
                    for y in x.walk():
                        if y.k == "Var":
                            i = y.role("init")
                            if i is not None and self.place(i) is not None:
                                p = self.place(i)
                    if p is not None and p[:2] != ("this", 0):
                        st = self.put(st, (p[0], p[1], None))   # set (or read) through the loop's reference
            del rng
            before = st
            body = self.stmt(n.role("body"), st)
            br, co = self.loops.pop()
            out = before
            for b in br:
                out = self.join(out, b)
            return out
        c = n.role("cond")
        if k == "DoStmt":
            body = self.stmt(n.role("body"), st)
            br, co = self.loops.pop()
            for x in co:
                body = self.join(body, x)
            t, f = self.cond(c, body)
            for b in br:
                f = self.join(f, b)
            return f
        cv = n.role("condvar")
        if cv is not None:
            st = self.declare(cv, st)
        counts = None
        if var is None and k in ("WhileStmt", "ForStmt") and n.role("inc") is None:
            var, counts = self.counter(n)
            if var is None:
                counts = None
        t, f = self.cond(c, st) if c is not None else (st, None)
        mine = self.loops.pop()
        if var is not None and var not in self.later:
            # first pass: what holds at the end of an iteration, for `i > 0` inside
            keep = dict(self.bad), self.reads, list(self.rets), self.track, self.members
            self.track, self.members = dict(self.track), dict(self.members)
            self.later[var] = None
            self.loops.append(([], []))
            if counts is False:
                self.counted[var] = []
            end = self.stmt(n.role("body"), t)
            if counts is False:
                end = None
                for x in self.counted.pop(var):
                    end = self.join(end, x)
            for x in self.loops.pop()[1] if counts is not False else ():
                if x is not None and ("dec", var, None) not in x:
                    end = self.join(end, x)
            self.bad, self.reads, self.rets, self.track, self.members = keep
            self.later[var] = end
        self.loops.append(mine)
        body = self.stmt(n.role("body"), t)
        br, co = self.loops.pop()
        for x in co:
            body = self.join(body, x)
        self.later.pop(var, None)
        inc = n.role("inc")
        if inc is not None:
            body = self.ev(inc, body)
        out = f
        if isinstance(bound, int) and bound > 0 or bound == "size":
            if out is not None and body is not None:
                extra = set(body if isinstance(bound, int) else ())
                for q in body:
                    if q[2] == ("v", var):
                        size = self.members.get(q[0], {}).get(q[1]) if q[1] else self.track[q[0]].get(0) if q[0] in self.track else None
                        if bound == "size" or size is not None and bound >= size:
                            extra.add((q[0], q[1], None))
                out = out | frozenset(extra)
        for b in br:
            out = self.join(out, b)
        return out

    def stmt(self, n, st):
        if n is None:
            return st
        k = n.k
        if st is None and k not in ("CompoundStmt", "CaseStmt", "DefaultStmt", "LabelStmt"):
            return None
        if k == "CompoundStmt":
            for x in n.c:
                st = self.stmt(x, st)
            return st
        if k == "DeclStmt":
            for v in n.c:
                st = self.declare(v, st)
            return st
        if k == "Var":
            return self.declare(n, st)
        if k == "IfStmt":
            init = n.role("init")
            if init is not None:
                st = self.stmt(init, st)
            cv = n.role("condvar")
            if cv is not None:
                st = self.declare(cv, st)
            t, f = self.cond(n.role("cond"), st)
            a = self.stmt(n.role("then"), t)
            b = self.stmt(n.role("else"), f)
            return self.join(a, b)
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, st)
        if k == "ReturnStmt":
            for x in n.c:
                p = self.moved(x)
                if p is not None and st is not None and not self.isset(st, p):
                    for d in self.track[p[0]]:
                        if not self.isset(st, (p[0], d, None)):
                            self.flag(x, (p[0], d, None))
                st = self.ev(x, st)
            if st is not None:
                self.rets.append(st)
            return None
        if k == "BreakStmt":
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if k == "ContinueStmt":
            for l in reversed(self.loops):
                if l[1] is not None:
                    l[1].append(st)
                    break
            return None
        if k == "SwitchStmt":
            c = n.role("cond")
            st = self.ev(c, st)
            self.loops.append(([], None))
            entry, cur, dflt = st, None, False
            body = n.role("body")
            for x in (body.c if body is not None and body.k == "CompoundStmt" else [body]):
                while x is not None and x.k in ("CaseStmt", "DefaultStmt"):
                    dflt = dflt or x.k == "DefaultStmt"
                    cur = self.join(cur, entry)
                    x = x.c[-1] if x.c else None
                cur = self.stmt(x, cur)
            br, _ = self.loops.pop()
            out = cur
            for b in br:
                out = self.join(out, b)
            if not dflt and not self.total(n):
                out = self.join(out, entry)
            return out
        if k == "CXXTryStmt":
            a = self.stmt(n.c[0], st)
            for x in n.c[1:]:
                if x is not None:
                    b = st
                    for y in x.c:
                        if y is not None and y.k != "Var":
                            b = self.stmt(y, b)
                    a = self.join(a, b)
            return a
        if k in ("NullStmt", "TypedefDecl", "StaticAssertDecl"):
            return st
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            for x in n.c:
                st = self.stmt(x, st)
            return st
        return self.ev(n, st)

    def moved(self, x):
        """The local object a return statement hands out."""
        while x is not None:
            x = strip(x)
            if x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(x.c) == 1:
                x = x.c[0]
                continue
            break
        p = self.place(x) if x is not None and x.k == "DeclRefExpr" else None
        return p if p is not None and p[1] == 0 and self.fieldwise(p[0]) else None

    def total(self, n):
        """a switch over an enumeration that names all its values"""
        c = n.role("cond")
        e = None
        for x in c.walk():
            if x.t is not None and self.P.ty(x.t)["k"] == "enum":
                e = self.P.ty(x.t)["s"]
        if e is None:
            return False
        got = {str(x.c[0].get("cv", x.c[0].get("d"))) for x in n.walk() if x.k == "CaseStmt" and x.c}
        for en in self.P.enum_by_key.values():
            if en.get("q") == e or en.get("key") == e:
                return len(got) >= len(en.get("consts", en.get("values", ())) or ()) > 0
        return False

    # -- constructors ------------------------------------------------------------------------------------------
    def constructor(self, rr):
        """Fields left unset on some path; read-before-set in self.bad"""
        f = self.fn
        fields = rr["fields"]
        self.names = {x["d"]: x["n"] for x in fields}
        self.members["this"] = {x["d"]: self.T.size(x["t"]) for x in fields}
        self.track["this"] = {x["d"]: 1 for x in fields if self.T.unset(x["t"])}
        st = frozenset(("this", x["d"], None) for x in fields if x["d"] not in self.track["this"])
        for i in f.inits:
            e = i["e"]
            if i.get("field") is None:
                if e is not None and e.k in CALLS:
                    g = self.P.fns.get(e.get("f"))
                    if g is not None and g.cls == rr["id"]:       # delegates
                        st = st | {("this", 0, None)}
                st = self.ev(e, st)
                continue
            if e is None:
                continue
            s = strip(e)
            plain = s.k == "CXXConstructExpr" and not s.c and not s.get("zero") and not i["w"] or \
                s.k == "CXXConstructExpr" and not s.c and not s.get("zero") and i["field"] in self.track["this"]
            st = self.ev(e, st)
            if st is None:
                return []
            if not plain:
                st = self.put(st, ("this", i["field"], None))
            lit = strip(s.c[0] if s.k in ("CXXDefaultInitExpr", "InitListExpr") and s.c else s)
            if lit is not None and lit.k == "CXXBoolLiteralExpr" and lit.get("v") is not None:
                st = st | {("this", i["field"], "true" if lit.get("v") not in (0, False, "false") else "false")}
        out = self.run(f.body, st) if f.body is not None else st
        if out is None:
            return []
        if ("this", 0, None) in out:
            return []
        return [x for x in fields if x["d"] in self.track["this"] and not self.isset(out, ("this", x["d"], None))]


def run(ctx):
    P = ctx.program()
    T = Types(P)
    ctx.require(len(T.recs) > 200, "the library's classes were not extracted")
    done = {}

    def put(key, bad, rule, where, msg, site):
        if key not in done or bad and not done[key][0]:
            done[key] = (bad, rule, where, msg, site)

    for rr in T.recs.values():
        if not rr["q"].startswith("huira"):
            continue
        private = any(x.get("acc") not in (0, None) for x in rr["fields"])
        for f in T.ctors.get(rr["id"], ()):
            if f.get("sp") in ("copy", "move") and f.get("defaulted") or f.get("deleted"):
                continue
            if f.get("defaulted") and (not private or f.get("implicit") and not private):
                continue
            if not f.has_body and not f.get("defaulted"):
                continue
            fl = Flow(T, f)
            left = fl.constructor(rr) if f.has_body and f.body is not None else T.garbage(rr)
            names = ", ".join(x["n"] for x in left)
            put(("ctor", f.key, f.file, f.line), bool(left), "constructor", f.where,
                "the constructor can finish without setting %s" % names, "%s %s" % (f.key, names))
            for p, (line, what) in fl.bad.items():
                put(("ctorread", f.key, f.file, f.line, what), True, "constructor reads", f.where,
                    "%s is read at line %d before it is set" % (what, line), "%s %s" % (f.key, what))
    reads = nv = 0
    for f in P.fns.values():
        if not f.has_body or f.body is None or not f.key.startswith("huira"):
            continue
        fl = Flow(T, f)
        fl.run(f.body, frozenset())
        locs = [d for d in fl.track if d != "this"]
        nv += len(locs)
        reads += fl.reads
        if locs:
            put(("local", f.key, f.file, f.line), bool(fl.bad), "local", f.where,
                "; ".join("%s is read at line %d on a path on which it has not been set" % (w, l) for l, w in list(fl.bad.values())[:4]),
                "%s %s" % (f.key, ", ".join(sorted(w for _, w in fl.bad.values()))))
    ctx.cov["unset_locals"] = nv
    ctx.cov["reads_decided"] = reads
    for key, (bad, rule, where, msg, site) in sorted(done.items(), key=lambda kv: str(kv[0])):
        ctx.ob(not bad, rule, where, msg, site)
        ctx.count(rule)
        if not bad and rule == "local":
            ctx.sample(site)
    ctx.require(ctx.cov.get("constructor", 0) > 60, "the library's constructors were not extracted")
