"""Witness functions: small generated functions that use the library's public interface with symbolic
inputs. The value graph of what they return is compared with an independently written formula."""
import numbers
from . import absint
from . import alg
from . import fingerprint
from . import terms as tm
from .alg import E, V, Alg, sqrt
from .terms import T

FT = ("f",)
OPAQUE = ("hv", "lp", "lpv", "objat", "havoc")


def opaque(t, seen=None):
    """Whether a term depends on something the analysis could not follow."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in OPAQUE:
            return x
        if x.op == "ld" and isinstance(x.a[1], tuple):
            return x
        if x.op == "prj" and x.a[0].op == "empty":
            return x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, T))
    return None


def par_addr(fn, i):
    """Address of the object a parameter denotes."""
    return tm.mk("par", fn.params[i]["d"])


class Out:
    def __init__(self, W, fn, I, r):
        self.W, self.fn, self.I, self.r = W, fn, I, r

    @property
    def stopped(self):
        """The analysis gave up, which says nothing about the code."""
        return self.r is None

    def never(self, rule, where, msg, site):
        """Report that the witness does not return (called where ok is False)."""
        if not self.stopped:
            self.W.ctx.ob(False, rule, where, msg, site)

    @property
    def ok(self):
        return self.r is not None and self.r.st is not None and (self.r.val is not None or self.W.P.ty(self.fn.ret)["k"] == "void")

    def load(self, a, t=FT):
        return E(self.I.load(self.r.st, a, t))

    @property
    def val(self):
        return E(self.r.val)

    def vec(self, n=3, base=None):
        b = self.r.val if base is None else base
        return V(self.load(tm.el(b, tm.c(i))) for i in range(n))

    def mat(self, c=3, r=3):
        """Columns."""
        return [V(self.load(tm.el(tm.el(self.r.val, tm.c(i)), tm.c(j))) for j in range(r)) for i in range(c)]

    def arg(self, i):
        return E(tm.mk("par", self.fn.params[i]["d"]))

    def paraddr(self, i):
        return par_addr(self.fn, i)

    def argvec(self, i, n=3):
        a = tm.mk("par", self.fn.params[i]["d"])
        st = absint.State()
        return V(E(self.I.load(st, tm.el(a, tm.c(k)), FT)) for k in range(n))

    def argmat(self, i, c=3, r=3):
        a = tm.mk("par", self.fn.params[i]["d"])
        st = absint.State()
        return [V(E(self.I.load(st, tm.el(tm.el(a, tm.c(k)), tm.c(j)), FT)) for j in range(r)) for k in range(c)]

    def throws_under(self):
        """(facts at each throw)"""
        return [s.facts for s, n, f in self.r.throws]


class Wit:
    def __init__(self, ctx, name, text, ns="verif_w", flags=()):
        self.ctx = ctx
        self.ns = ns
        self.P = ctx.program(name, text=text, flags=flags)
        self.fns = {}
        for f in self.P.defs:
            if f.key.startswith(ns + "::") and f.has_body:
                self.fns[f.n] = f

    def scoped(self):
        """Name witnesses by their nested namespace as well (ns::name)."""
        self.fns = {f.key[len(self.ns) + 2:]: f for f in self.P.defs if f.key.startswith(self.ns + "::") and f.has_body}

    def run(self, name, hooks=None, inline=None, models=None, unroll=12, budget=600000, pre=None, maxdepth=14, setup=None):
        fn = self.fns.get(name)
        self.ctx.require(fn is not None, "witness function " + name)
        I = absint.Interp(self.P, hooks, inline=lambda f: not f.key.startswith("huira::Logger") and (inline is None or inline(f)),
                          unroll=unroll, budget=budget, models=models, maxdepth=maxdepth)
        if setup:
            setup(I)
        try:
            r = I.run(fn, pre=pre)
        except absint.Budget as e:
            self.ctx.count("undetermined")
            self.ctx.notes.append("%s: not followed to its end (%s)" % (name, e))
            r = None
        return Out(self, fn, I, r)


    def paths(self, name, limit=400, setup=None, **kw):
        """The ways through a witness, one by one: [(trail of (condition, value), Out)] and whether these are all."""
        out = []
        pre = []
        while len(out) < limit:
            box = []

            def go(I):
                I.split = list(pre)
                box.append(I)
                if setup:
                    setup(I)
            o = self.run(name, setup=go, **kw)
            I = box[0]
            tr = list(I.trail)
            if o.stopped:
                return out, False
            out.append((list(tr), o))
            while tr and not tr[-1][1]:
                tr.pop()
            if not tr:
                return out, True
            pre = [x[1] for x in tr[:-1]] + [False]
        return out, False

    def toward(self, name, env, leaf=None, setup=None, known=None, **kw):
        """The way through a witness that a point takes: (Out, whether every choice on it was certain). known: ways found before."""
        from .concrete import concrete
        for o in known or ():
            memo = {}
            if all((lambda v: v is not None and bool(v) == k)(concrete(t, env, leaf, memo)) for t, k in o.I.trail):
                return o, True
        sure = [True]

        def go(I):
            I.split = []
            memo = {}

            def decide(st, cond):
                k = I.known(st, cond)
                if k is not None or I.split is None or I.quiet:
                    return k
                k = concrete(cond, env, leaf, memo)
                if k is None:
                    sure[0] = False
                k = bool(k)
                I.trail.append((cond, k))
                I.assume(st, cond, k)
                return k
            I.decide = decide
            if setup:
                setup(I)
        o = self.run(name, setup=go, **kw)
        if known is not None and sure[0] and not o.stopped:
            known.append(o)
        return o, sure[0]


def thresholds(ways):
    """The numbers the choices on these ways compare with."""
    out = set()
    seen = set()
    st = [t for o in ways for t, _ in o.I.trail]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("lt", "le", "eq"):
            for y in x.a:
                if isinstance(y, T) and y.op == "c" and isinstance(y.a[0], numbers.Real) and not isinstance(y.a[0], bool) and abs(y.a[0]) < 1e30:
                    out.add(float(y.a[0]))
        st.extend(y for y in x.a if isinstance(y, T))
    return out


def where_of(P, fn, skip=(), last=False, depth=2):
    """The library function a witness reaches (for the report): the first, or the last, not of a skipped class."""
    hit = None
    for n in fn.walk():
        f = n.get("f") if n.a else None
        if f is not None:
            g = P.fns.get(f)
            if g is None or not g.has_body or not g.file:
                continue
            if g.key.startswith("verif_w"):
                continue
            if not g.file.startswith("/") and g.sp not in ("ctor", "dtor", "copyassign", "moveassign") and not any(k in g.q for k in skip):
                if hit is None or last:
                    hit = g
    if hit is not None:
        return "%s:%s" % (hit.file, hit.line), hit.q
    return fn.where, fn.q


def branchy(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("ite", "lt", "le", "eq") or (x.op == "call" and isinstance(x.a[0], str) and x.a[0].split("::")[-1] in ("max", "min", "fmax", "fmin", "clamp", "abs", "fabs")):
            return True
        st.extend(y for y in x.a if isinstance(y, T))
    return False


def check(ctx, rule, name, got, want, where, alts=(), site=None, ortho=(), given=None, **kw):
    """One obligation: got == want (or one of alts) as real functions. Returns True/False/None.
    ortho: groups of nine unknowns that are a rotation matrix; given: unknowns with a range (fingerprints only)."""
    got, want = E(got), E(want)
    ctx.count("formulas")
    if len(ctx.violations) >= 15:
        ctx.count("skipped_after_15_violations")
        return None
    A = None
    undet = False
    wants = (want,) + tuple(E(x) for x in alts)
    for w in wants:
        A = Alg(**kw)
        r = A.same(got.t, w.t)
        if r:
            ctx.obligations += 1
            ctx.discharged += 1
            return True
        if r is None:
            undet = True
    o = opaque(got.t)
    if o is not None:
        ctx.count("undetermined")
        ctx.notes.append("%s: %s is undetermined (%s)" % (rule, name, tm.show(o)[:80]))
        return None
    how = ""
    if undet or not branchy(got.t):
        # too large for a normal form (or an identity it does not know): compare fingerprints
        fp = fingerprint.compare(got.t, [w.t for w in wants], ortho=[[E(x).t for x in g] for g in ortho], given=given, **kw)
        if fp is True:
            ctx.count("by_fingerprint")
            ctx.obligations += 1
            ctx.discharged += 1
            return True
        if fp is None and undet:
            ctx.count("undetermined")
            ctx.notes.append("%s: %s is undetermined (too large)" % (rule, name))
            return None
        if undet:
            how = " (fingerprints %.6g and %.6g)" % (fp[1], fp[2])
    say = (lambda t: tm.show(t)[:160]) if undet else (lambda t: Alg(**kw).describe(t)[:300])
    ctx.ob(False, rule, where, "%s computes %s; by definition it is %s%s" % (name, say(got.t), say(want.t), how), site or name)
    return False


class Lib:
    """Runs library methods on the same symbolic objects a witness received, to name their parts."""

    def __init__(self, W):
        self.W = W
        self.P = W.P

    def method(self, clskey, name, this, targs=None, pred=None, **kw):
        fs = [f for f in self.P.defs if f.clskey == clskey and f.n == name and f.has_body and (targs is None or targs in f.q) and (pred is None or pred(f))]
        self.W.ctx.require(fs, "%s::%s" % (clskey, name))
        I = absint.Interp(self.P, None, inline=lambda f: not f.key.startswith("huira::Logger"), **kw)
        r = I.run(fs[0], this=this)
        return Out(self.W, fs[0], I, r)


def fields(P, clskey, spec=None):
    """Field name -> declaration id."""
    out = {}
    for r in P.rec_by_key.get(clskey, ()):
        if spec is not None and spec not in r.get("q", r.get("s", "")) and spec != r.get("targs_s"):
            continue
        for fd in r.get("fields", ()):
            out.setdefault(fd["n"], []).append(fd["d"])
    return out


def points(ctx, rule, name, term, envs, want, where, rel=1e-5, atol=1e-12, leaf=None, site=None, say=None):
    """One obligation: at every point of envs (unknown term -> number) the value of the term equals want(env).
    want may return None to skip a point. Returns True/False/None (None: the value is not known)."""
    from .concrete import concrete
    ctx.count("pointwise")
    und = 0
    for env in envs:
        w = want(env)
        if w is None:
            continue
        g = concrete(E(term).t, env, leaf)
        if g is None:
            und += 1
            continue
        if isinstance(w, bool):
            ok = bool(g) == w
        elif w != w:
            ok = g != g
        elif abs(w) == float("inf"):
            ok = g == w
        else:
            ok = isinstance(g, (int, float)) and g == g and abs(g - w) <= atol + rel * abs(w)
        if not ok:
            at = ", ".join("%s=%.6g" % (tm.show(k), v) for k, v in env.items() if isinstance(v, (int, float)))
            ctx.ob(False, rule, where, "%s is %s%s; by definition it is %s" % (name, g, (" at " + (say(env) if say else at)), w), site or name)
            return False
    if und:
        o = opaque(E(term).t)
        ctx.count("undetermined")
        ctx.notes.append("%s: %s is undetermined at %d points (%s)" % (rule, name, und, tm.show(o)[:80] if o is not None else "unknown function"))
        return None
    ctx.obligations += 1
    ctx.discharged += 1
    return True


def on_path(paths, env, leaf=None):
    """The path a point takes: (Out or None, whether that is certain)."""
    from .concrete import concrete
    for tr, o in paths:
        memo = {}
        for t, k in tr:
            v = concrete(t, env, leaf, memo)
            if v is None:
                return None, False
            if bool(v) != k:
                break
        else:
            return o, True
    return None, True
