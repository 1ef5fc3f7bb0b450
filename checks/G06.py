"""G06: no exception escapes where nothing can catch it.

A may-throw analysis over the whole instantiated library: a function throws when it contains a throw expression, calls
one of the standard library's throwing members (at, value, stoi, std::get, an unknown std::function, the throwing
filesystem calls), or calls a function that does, virtual calls by class hierarchy, and no handler on the way
takes it (catch (...) takes all, catch (std::exception) the standard ones).  Nothing may throw out of a noexcept
function or a destructor, a handler given to a C library, the terminate handler or the signal handlers; and writing to
the log never throws.  Running out of memory is not considered.
"""
import re

STD = re.compile(r"^std::(get$|stoi|stol|stoul|stoull|stof|stod|any_cast|vformat)|^std::.*::at$|^std::(optional|expected)::value$"
                 r"|^std::filesystem::(\w+$|(recursive_)?directory_iterator::(\(ctor\)|operator\+\+))|^std::basic_string(_view)?::(substr|erase|insert|replace|compare)$"
                 r"|^std::basic_regex::|^std::thread::\(ctor\)|^std::call_once$")
ANY = re.compile(r"^std::rethrow_exception$|^std::function::operator\(\)$")
CALLS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")
NEVER = re.compile(r"^huira::Logger::|^huira::ScopeLogger::")


class Throws:
    """who -> {kind: (site, callee or what)}"""

    def __init__(self, P):
        self.P = P
        self.edges = {}    # id -> [(kinds let through, line, target ids)]
        self.own = {}      # id -> [(kind, line, what)]
        self.callers = {}
        for f in P.fns.values():
            if f.has_body and f.body is not None:
                self.edges[f.id], self.own[f.id] = [], []
                for i in f.inits:
                    self._scan(i["e"], f, frozenset(("std", "any")), None)
                self._scan(f.body, f, frozenset(("std", "any")), None)
        self.thr = {}
        work = []
        for i, own in self.own.items():
            for kind, line, what in own:
                self.thr.setdefault(i, {}).setdefault(kind, (line, what, None))
        for i, es in self.edges.items():
            for kinds, line, ts in es:
                for t in ts:
                    self.callers.setdefault(t, []).append((i, kinds, line))
        work = list(self.thr)
        while work:
            t = work.pop()
            g = P.fns[t]
            if g.get("noex") == "yes":
                continue    # it ends the program there, and is reported there
            for i, kinds, line in self.callers.get(t, ()):
                for k in list(self.thr[t]):
                    if k in kinds and k not in self.thr.get(i, {}):
                        self.thr.setdefault(i, {})[k] = (line, g.key, t)
                        work.append(i)

    def _scan(self, n, f, kinds, held):
        """kinds: what gets out of the enclosing handlers; held: what a `throw;` would throw here"""
        if n is None or n.k == "LambdaExpr":
            return
        if n.k == "CXXTryStmt":
            cs = [x for x in n.c[1:] if x is not None]
            inner = set(kinds)
            for x in cs:
                takes = self._takes(x)
                inner -= takes
            self._scan(n.c[0], f, frozenset(inner), held)
            for x in cs:
                for y in x.c:
                    self._scan(y, f, kinds, "std" if self._takes(x) == {"std"} else "any")
            return
        if n.k == "CXXThrowExpr":
            sub = [x for x in n.c if x is not None]
            kind = (held or "any") if not sub else "std" if self._std(sub[0]) else "any"
            if kind in kinds:
                self.own[f.id].append((kind, n.l, "throw"))
        elif n.k in CALLS:
            g = self.P.fns.get(n.get("f"))
            if g is not None and g.get("noex") != "yes":
                ts = self.P.targets(g.id) if g.get("virtual") and not n.get("nonvirt") else [g]
                for h in ts:
                    name = h.key or h.q
                    kind = "any" if ANY.search(name) else "std" if STD.search(name) and not h.get("noex") == "yes" else None
                    if kind and not (h.has_body and h.key.startswith("huira")) and not self._code(n, name):
                        if kind in kinds:
                            self.own[f.id].append((kind, n.l, name))
                self.edges[f.id].append((kinds, n.l, [h.id for h in ts]))
                for a in n.c[1:]:      # a callable handed to a function that runs it here
                    for h in called_here(self.P, a, g):
                        self.edges[f.id].append((kinds, n.l, [h.id]))
        for x in n.c:
            self._scan(x, f, kinds, held)

    def _code(self, n, name):
        """the overloads that report by std::error_code do not throw"""
        return any(x is not None and "error_code" in self.P.ty(x.t)["s"] for x in n.c[1:] if x is not None and x.t is not None)

    def _std(self, x):
        for y in x.walk():
            if y.t is not None and re.search(r"std::(\w+_error|exception|logic_error|bad_\w+|invalid_argument|out_of_range|length_error|domain_error)", self.P.ty(y.t)["s"]):
                return True
        return False

    def _takes(self, c):
        if c.get("all"):
            return {"std", "any"}
        ty = self.P.ty(c.get("ct"))["s"] if c.get("ct") is not None else ""
        return {"std"} if re.search(r"std::exception\b", ty) else set()

    def path(self, i, kind):
        out = []
        while i is not None and len(out) < 12:
            line, what, nxt = self.thr[i][kind]
            f = self.P.fns[i]
            out.append("%s:%d (%s)" % (f.file, line, what))
            i = nxt if nxt is not None and kind in self.thr.get(nxt, {}) else None
        return out


def called_here(P, a, g):
    """the body of a lambda given to a function of the standard library or TBB, which runs it before it returns"""
    if a is None or g.get("externc") or (g.key or g.q or "").startswith("huira"):
        return
    if not re.match(r"^(std|tbb|oneapi|glm)::", g.q or g.key or ""):
        return
    b = a
    while b is not None and b.k not in ("LambdaExpr",) and len([x for x in b.c if x is not None]) == 1:
        b = [x for x in b.c if x is not None][0]
    if b is not None and b.k == "LambdaExpr":
        h = P.fns.get(b.get("lam"))
        if h is not None and h.has_body:
            yield h


def handlers(P):
    """functions handed to C: argument of an extern "C" call, or std::set_terminate / signal"""
    for f in P.fns.values():
        if not f.has_body or f.body is None:
            continue
        for n in f.walk():
            if n.k != "CallExpr":
                continue
            g = P.fns.get(n.get("f"))
            if g is None or not (g.get("externc") or g.n in ("set_terminate", "signal", "atexit", "at_quick_exit")):
                continue
            for a in n.c[1:]:
                b = a
                while b is not None and b.k not in ("LambdaExpr", "DeclRefExpr"):
                    cs = [x for x in b.c if x is not None]
                    if len(cs) != 1 or b.k in CALLS and b.k != "CXXMemberCallExpr":
                        b = None
                        break
                    if b.k == "CXXMemberCallExpr" and not (P.fns.get(b.get("f")) is not None and P.fns[b.get("f")].n.startswith("operator ")):
                        b = None
                        break
                    b = cs[0]
                if b is None:
                    continue
                h = P.fns.get(b.get("lam") if b.k == "LambdaExpr" else b.get("f") or b.get("d"))
                if h is not None and h.has_body:
                    yield h, g, f, n


def run(ctx):
    P = ctx.program()
    T = Throws(P)
    ctx.require(len(T.edges) > 1500, "the library's functions were not extracted")
    ctx.cov["functions"] = len(T.edges)
    ctx.cov["throwing_functions"] = len(T.thr)
    ctx.cov["throw_sites"] = sum(len(v) for v in T.own.values())
    ctx.cov["calls"] = sum(len(v) for v in T.edges.values())
    done = {}

    def put(key, rule, f, msg, site):
        kinds = T.thr.get(f.id, {})
        p = [] if not kinds else T.path(f.id, sorted(kinds)[0])
        if key not in done or p and not done[key][0]:
            done[key] = (p, rule, f, msg, site)

    for f in P.fns.values():
        if not f.has_body or f.body is None or not f.key.startswith("huira"):
            continue
        if f.get("noex") == "yes" or f.get("sp") == "dtor" and f.get("noex"):
            rule = "destructor" if f.get("sp") == "dtor" else "noexcept"
            put((rule, f.key, f.file, f.line), rule, f,
                "%s lets an exception out: the program is ended instead of the caller being told" %
                ("a destructor" if rule == "destructor" else "a function declared noexcept"), f.key)
        if NEVER.search(f.key) and f.get("acc", "public") == "public" and not f.get("noex") == "yes" and f.get("sp") != "dtor" and "(lambda" not in f.key:
            put(("log", f.key, f.file, f.line), "logging", f, "writing to the log throws into the code that logs", f.key)
    for h, g, f, n in handlers(P):
        put(("cb", h.key, h.file, h.line), "C callback", h,
            "%s, given to %s, lets an exception out through C code" % (h.key, g.n), "%s -> %s" % (f.key, g.n))
    for k, (p, rule, f, msg, site) in sorted(done.items()):
        ctx.ob(not p, rule, f.where, msg + (": " + " -> ".join(p[:6]) if p else ""), site)
        ctx.count(rule)
        if not p and rule != "noexcept":
            ctx.sample("%s %s" % (rule, site))
    ctx.require(len(done) > 60, "the library's noexcept functions and destructors were not extracted")
