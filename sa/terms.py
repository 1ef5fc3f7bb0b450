"""Hash-consed value terms (the value numbers of the dataflow analysis) and their normalisation.

A term names the value an expression has at a program point: two expressions that must be equal get
the same term, however the source spells them.  Addresses are terms as well.
"""
import math

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "u", "_r")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.u < o.u


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.u = _n[0]
        t._r = None
        _tab[k] = t
    return t


TY = {}  # term -> type code: ('i',w) ('u',w) ('f',w) ('b',) ('p',)


def settype(t, tc):
    if tc and t.op != "c" and t not in TY:
        TY[t] = tc
    return t


def c(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if math.isnan(v):
            return mk("nan")
        if math.isinf(v):
            return mk("inf", 1 if v > 0 else -1)
        if v == int(v) and abs(v) < 2 ** 63:
            v = int(v)
    return mk("c", v)


TRUE = c(1)
FALSE = c(0)
ZERO = FALSE
NULL = FALSE


def isc(t):
    return t.op == "c"


def cval(t):
    return t.a[0] if t.op == "c" else None


NONNULL = frozenset(("var", "new", "fld", "el", "tmp", "this", "str", "fnref", "glob", "ownobj"))


def wrapc(ty, v):
    if ty and ty[0] in "iu" and isinstance(v, int):
        w = ty[1]
        v &= (1 << w) - 1
        if ty[0] == "i" and v >> (w - 1):
            v -= 1 << w
    return v


def add(ty, x, y):
    if isc(x) and isc(y):
        return c(wrapc(ty, x.a[0] + y.a[0]))
    if isc(x) and x.a[0] == 0:
        return y
    if isc(y) and y.a[0] == 0:
        return x
    # (z + c1) + c2
    if isc(x):
        x, y = y, x
    if isc(y) and x.op == "add" and isc(x.a[2]) and ty == x.a[0] and ty and ty[0] in "iu":
        return add(ty, x.a[1], c(x.a[2].a[0] + y.a[0]))
    if isc(y):
        return mk("add", ty, x, y)
    if y.u < x.u:
        x, y = y, x
    return mk("add", ty, x, y)


def sub(ty, x, y):
    if isc(x) and isc(y):
        return c(wrapc(ty, x.a[0] - y.a[0]))
    if isc(y) and y.a[0] == 0:
        return x
    if x is y and ty and ty[0] in "iu":
        return ZERO
    if isc(y) and ty and ty[0] == "i":
        return add(ty, x, c(-y.a[0]))
    return mk("sub", ty, x, y)


def mul(ty, x, y):
    if isc(x) and isc(y):
        return c(wrapc(ty, x.a[0] * y.a[0]))
    if isc(x):
        x, y = y, x
    if isc(y) and y.a[0] == 1:
        return x
    if isc(y) and y.a[0] == 0:
        return ZERO
    if isc(y):
        return mk("mul", ty, x, y)
    if y.u < x.u:
        x, y = y, x
    return mk("mul", ty, x, y)


def div(ty, x, y):
    isint = ty and ty[0] in "iu"
    if isc(y) and y.a[0] == 1:
        return x
    if isc(x) and isc(y) and y.a[0] != 0:
        if isint:
            q = abs(x.a[0]) // abs(y.a[0])
            return c(q if (x.a[0] >= 0) == (y.a[0] >= 0) else -q)
        return c(x.a[0] / y.a[0])
    return mk("div", ty, x, y)


def mod(ty, x, y):
    if isc(x) and isc(y) and y.a[0] != 0:
        r = abs(x.a[0]) % abs(y.a[0])
        return c(r if x.a[0] >= 0 else -r)
    return mk("mod", ty, x, y)


def neg(ty, x):
    if isc(x):
        return c(wrapc(ty, -x.a[0]))
    if x.op == "neg":
        return x.a[1]
    return mk("neg", ty, x)


def bitop(op, ty, x, y):
    if isc(x) and isc(y) and isinstance(x.a[0], int) and isinstance(y.a[0], int):
        a, b = x.a[0], y.a[0]
        try:
            return c(wrapc(ty, {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if 0 <= b < 64 else 0,
                                ">>": a >> b if 0 <= b < 64 else 0}[op]))
        except KeyError:
            pass
    if op in "&|^" and y.u < x.u and not isc(x):
        x, y = y, x
    if op in "&|^" and isc(x):
        x, y = y, x
    if op in ("<<", ">>", "|", "^") and isc(y) and y.a[0] == 0:
        return x
    return mk(op, ty, x, y)


def ite(k, a, b):
    if k is TRUE:
        return a
    if k is FALSE:
        return b
    if a is b:
        return a
    if k.op == "not":
        return ite(k.a[0], b, a)
    if a is TRUE and b is FALSE:
        return k
    if a is FALSE and b is TRUE:
        return not_(k)
    if a.op == "ite" and a.a[0] is k:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is k:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", k, a, b)


def not_(x):
    if isc(x):
        return FALSE if x.a[0] else TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "lt" and x.a[0] and x.a[0][0] in "iup":
        return le(x.a[0], x.a[2], x.a[1])
    if x.op == "le" and x.a[0] and x.a[0][0] in "iup":
        return lt(x.a[0], x.a[2], x.a[1])
    return mk("not", x)


def and_(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE or x is y:
        return x
    return mk("and", x, y)


def or_(x, y):
    if x is TRUE or y is TRUE:
        return TRUE
    if x is FALSE:
        return y
    if y is FALSE or x is y:
        return x
    return mk("or", x, y)


def _push(f, ty, x, y):
    """Comparison of an ite with a constant: push inside when it decides a branch."""
    for p, q, sw in ((x, y, 0), (y, x, 1)):
        if p.op == "ite" and (isc(q)):
            l = f(ty, p.a[1], q) if not sw else f(ty, q, p.a[1])
            r = f(ty, p.a[2], q) if not sw else f(ty, q, p.a[2])
            if isc(l) or isc(r):
                if l is TRUE and r is FALSE:
                    return p.a[0]
                if l is FALSE and r is TRUE:
                    return not_(p.a[0])
                if l is FALSE:
                    return and_(not_(p.a[0]), r)
                if r is FALSE:
                    return and_(p.a[0], l)
                if l is TRUE:
                    return or_(p.a[0], r)
                if r is TRUE:
                    return or_(not_(p.a[0]), l)
    return None


def _elsplit(x, y):
    if x.op in ("el", "padd") and y.op == x.op and x.a[0] is y.a[0]:
        return x.a[1], y.a[1]
    if x.op == "padd" and x.a[0] is y:
        return x.a[1], ZERO
    if y.op == "padd" and y.a[0] is x:
        return ZERO, y.a[1]
    return None


LOCAL = {"var", "tmp", "new"}
OWNED = LOCAL | {"par", "this", "glob"}


def eq(ty, x, y):
    if x is y and not (ty and ty[0] == "f"):
        return TRUE
    if isc(x) and isc(y):
        return TRUE if x.a[0] == y.a[0] else FALSE
    if isc(x):
        x, y = y, x
    if isc(y) and y.a[0] == 0 and x.op in NONNULL and ty and ty[0] == "p":
        return FALSE
    if ty and ty[0] == "b" and isc(y):
        return x if y.a[0] else not_(x)
    if ty and ty[0] == "p":
        r, q = root(x), root(y)
        if r is not q and (r.op in LOCAL and q.op in OWNED or r.op in OWNED and q.op in LOCAL):
            return FALSE  # addresses inside different objects
    s = _elsplit(x, y)
    if s:
        return eq(("i", 64), s[0], s[1])
    r = _push(eq, ty, x, y)
    if r is not None:
        return r
    if not isc(y) and y.u < x.u:
        x, y = y, x
    if ty and ty[0] in "iu":
        ty = ("i", 64)
    return mk("eq", ty, x, y)


def lt(ty, x, y):
    if x is y:
        return FALSE
    if isc(x) and isc(y):
        return TRUE if x.a[0] < y.a[0] else FALSE
    s = _elsplit(x, y)
    if s:
        return lt(("i", 64), s[0], s[1])
    r = _push(lt, ty, x, y)
    if r is not None:
        return r
    return mk("lt", ty, x, y)


def le(ty, x, y):
    if x is y and not (ty and ty[0] == "f"):
        return TRUE
    if isc(x) and isc(y):
        return TRUE if x.a[0] <= y.a[0] else FALSE
    s = _elsplit(x, y)
    if s:
        return le(("i", 64), s[0], s[1])
    r = _push(le, ty, x, y)
    if r is not None:
        return r
    return mk("le", ty, x, y)


_FOLD = {
    "clamp": lambda x, a, b: a if x < a else b if b < x else x, "max": lambda a, b: b if a < b else a, "min": lambda a, b: b if b < a else a,
    "round": lambda x: math.floor(abs(x) + 0.5) * (-1 if x < 0 else 1), "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
    "fmod": lambda a, b: math.fmod(a, b) if b else math.nan, "fabs": abs,
}


def call(key, *args):
    if args and isinstance(key, str) and all(isinstance(a, T) and a.op == "c" for a in args):
        f = _FOLD.get(key.split("::")[-1].split("<")[0])
        if f:
            try:
                return c(f(*[a.a[0] for a in args]))
            except (TypeError, ValueError, OverflowError):
                pass
    return mk("call", key, *args)


def fld(base, d):
    if base.op == "ite":
        return ite(base.a[0], fld(base.a[1], d), fld(base.a[2], d))
    return mk("fld", base, d)


def el(base, i):
    if base.op == "ite":
        return ite(base.a[0], el(base.a[1], i), el(base.a[2], i))
    return mk("el", base, i)


def padd(p, i, sign=1):
    if isc(i) and i.a[0] == 0:
        return p
    if p.op == "ite":
        return ite(p.a[0], padd(p.a[1], i, sign), padd(p.a[2], i, sign))
    if p.op in ("el", "padd"):
        j = add(("i", 64), p.a[1], i) if sign > 0 else sub(("i", 64), p.a[1], i)
        if p.op == "padd" and isc(j) and j.a[0] == 0:
            return p.a[0]
        return mk(p.op, p.a[0], j)
    return mk("padd", p, i if sign > 0 else neg(("i", 64), i))


def prj(v, sel):
    if v.op == "ite":
        return ite(v.a[0], prj(v.a[1], sel), prj(v.a[2], sel))
    if v.op == "agg":
        for k, x in v.a[0]:
            if k == sel or k is sel:
                return x
    return mk("prj", v, sel)


def parent(a):
    if a.op in ("fld", "el"):
        return a.a[0]
    return None


def root(a):
    while a.op in ("fld", "el", "padd"):
        a = a.a[0]
    return a


def chain(a):
    """a and its ancestors."""
    out = [a]
    while a.op in ("fld", "el", "padd"):
        a = a.a[0]
        out.append(a)
    return out


NAMES = {}  # decl id -> name, filled by the interpreter


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x) for x in t) + ")"
        return str(NAMES.get(t, t)) if isinstance(t, int) else str(t)
    if d > 6:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == "c":
        return str(a[0])
    if o in ("this", "nan"):
        return o
    if o in ("par", "var", "glob"):
        return str(NAMES.get(a[0], a[0]))
    if o == "fld":
        return s(a[0]) + "." + str(NAMES.get(a[1], a[1]))
    if o == "el":
        return s(a[0]) + "[" + s(a[1]) + "]"
    if o == "padd":
        return "(" + s(a[0]) + "+" + s(a[1]) + ")"
    if o == "ld":
        return "*" + s(a[0]) + ("'" if a[1] else "")
    if o == "prj":
        return s(a[0]) + "->" + (s(a[1]) if isinstance(a[1], T) else str(NAMES.get(a[1], a[1])))
    if o in ("add", "sub", "mul", "div", "mod", "lt", "le", "eq", "&", "|", "^", "<<", ">>"):
        sy = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "lt": "<", "le": "<=", "eq": "=="}.get(o, o)
        return "(" + s(a[1]) + sy + s(a[2]) + ")"
    if o == "neg":
        return "-" + s(a[1])
    if o == "not":
        return "!" + s(a[0])
    if o in ("and", "or"):
        return "(" + s(a[0]) + (" && " if o == "and" else " || ") + s(a[1]) + ")"
    if o == "ite":
        return "(" + s(a[0]) + " ? " + s(a[1]) + " : " + s(a[2]) + ")"
    if o == "call":
        return str(a[0]).split("::")[-1] + "(" + ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[1:]) + ")"
    if o == "cast":
        return "(%s%s)%s" % (a[0][0], a[0][1] if len(a[0]) > 1 else "", s(a[1]))
    if o == "lp":
        return "loop(" + s(a[2]) + ")"
    return o + "(" + ",".join(s(x) if isinstance(x, T) else "" for x in a) + ")"


# ---- polynomial normal form (real arithmetic) -------------------------------------------------
def pconst(v):
    return {(): v} if v != 0 else {}


def padd_(p, q, k=1):
    r = dict(p)
    for m, v in q.items():
        r[m] = r.get(m, 0) + k * v
        if r[m] == 0:
            del r[m]
    return r


def _mm(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].u))


def pmul(p, q):
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = _mm(m, n)
            r[k] = r.get(k, 0) + v * w
    return {k: v for k, v in r.items() if v != 0}


_pid = {}


def pkey(p):
    """An atom standing for a polynomial (canonical up to its printed normal form)."""
    items = tuple(sorted(((tuple((a.u, e) for a, e in m), _rnd(v)) for m, v in p.items())))
    t = _pid.get(items)
    if t is None:
        t = mk("poly", items)
        _pid[items] = t
        _pback[t] = p
    return t


_pback = {}


def _rnd(v):
    if isinstance(v, int):
        return v
    return float("%.9g" % v)


def ppow(p, e):
    if len(p) == 1:
        (m, v), = p.items()
        if v > 0 or e == int(e):
            try:
                return {tuple((a, x * e) for a, x in m if x * e != 0): v ** e}
            except (OverflowError, ZeroDivisionError):
                pass
    if e == int(e) and 0 < e <= 4:
        r = p
        for _ in range(int(e) - 1):
            r = pmul(r, p)
        return r
    # factor out the leading coefficient so that scaled copies share an atom
    if p:
        lead = min(p.items(), key=lambda kv: tuple((a.u, x) for a, x in kv[0]))
        k = lead[1]
        if k != 0 and (k > 0 or e == int(e)):
            q = {m: v / k if not (isinstance(v, int) and isinstance(k, int) and v % k == 0) else v // k for m, v in p.items()}
            try:
                return {((pkey(q), e),): k ** e}
            except (OverflowError, ZeroDivisionError):
                pass
    return {((pkey(p), e),): 1}


def poly(t, leaf=None, memo=None):
    """Polynomial of a term over its atoms; `leaf(t)` may map an atom to a polynomial or a term."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    r = _poly(t, leaf, memo)
    memo[t] = r
    return r


def _poly(t, leaf, memo):
    if leaf is not None:
        x = leaf(t)
        if x is not None:
            return x if isinstance(x, dict) else {((x, 1),): 1}
    o, a = t.op, t.a
    P = lambda x: poly(x, leaf, memo)
    if o == "c":
        return pconst(a[0])
    if o == "add":
        return padd_(P(a[1]), P(a[2]))
    if o == "sub":
        return padd_(P(a[1]), P(a[2]), -1)
    if o == "neg":
        return padd_({}, P(a[1]), -1)
    if o == "mul":
        return pmul(P(a[1]), P(a[2]))
    if o == "div" and not (a[0] and a[0][0] in "iu"):
        q = P(a[2])
        if q:
            return pmul(P(a[1]), ppow(q, -1))
    if o == "cast" and (a[0][0] == "f" or (a[0][0] in "iu" and TY.get(a[1], ("f",))[0] in "iub")):
        return P(a[1])
    if o == "call":
        if a[0] == "sqrt":
            return ppow(P(a[1]), 0.5)
        if a[0] == "pow" and a[2].op == "c":
            return ppow(P(a[1]), a[2].a[0])
        args = []
        for x in a[1:]:
            args.append(pkey(P(x)) if isinstance(x, T) else x)
        return {((mk("call", a[0], *args), 1),): 1}
    if o == "ite":
        x, y = P(a[1]), P(a[2])
        if pkey(x) is pkey(y):
            return x
        return {((mk("ite", a[0], pkey(x), pkey(y)), 1),): 1}
    return {((t, 1),): 1}


def peq(p, q, tol=1e-6):
    """Equality of polynomials up to a relative tolerance on the coefficients."""
    for m in set(p) | set(q):
        x, y = p.get(m, 0), q.get(m, 0)
        if abs(x - y) > tol * max(abs(x), abs(y), 1e-300):
            return False
    return True


def pshow(p):
    if not p:
        return "0"
    out = []
    for m, v in p.items():
        s = "" if v == 1 and m else "%.8g" % v
        for a, e in m:
            n = show(a) if a.op != "poly" else "(" + pshow(_pback[a]) + ")"
            s += ("*" if s else "") + n + ("^%g" % e if e != 1 else "")
        out.append(s)
    return " + ".join(out)
