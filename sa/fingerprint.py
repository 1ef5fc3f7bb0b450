"""Random interpretation of value graphs (Gulwani & Necula): a term is mapped to a fingerprint by giving every
unknown in it a random value. Two terms with different fingerprints are different functions; equal fingerprints
on several assignments certify equality up to a vanishing probability. Used where normal forms grow too large.

Unknown functions become fixed smooth functions of their arguments; families f.m00 .. f.m22 (and groups of
unknowns declared orthonormal) become entries of one random rotation matrix.
"""
import math
import random
import re
from . import terms as tm
from .terms import T

def _mp():
    try:
        import mpmath
        return mpmath
    except ImportError:
        import glob
        import sys
        for d in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
            sys.path.append(d)
            try:
                import mpmath
                return mpmath
            except ImportError:
                pass
            finally:
                sys.path.remove(d)
    return None


FAM = re.compile(r"^(.*)\.m([012])([012])$")
GS = re.compile(r"^GS([012])([012])$")


class Bad(Exception):
    pass


def euler(a, b, c, math=math):
    """Columns of Rz(a) Ry(b) Rx(c)."""
    ca, sa, cb, sb, cc, sc = math.cos(a), math.sin(a), math.cos(b), math.sin(b), math.cos(c), math.sin(c)
    return ((ca * cb, sa * cb, -sb), (ca * sb * sc - sa * cc, sa * sb * sc + ca * cc, cb * sc),
            (ca * sb * cc + sa * sc, sa * sb * cc - ca * sc, cb * cc))


class Point:
    def __init__(self, seed, scale=1.0, ortho=(), leaf=None, subst=None, spread=0.0, given=None, unit=(), mp=None):
        self.mp = mp
        self.num = mp.mpf if mp else float
        self.math = mp if mp else math
        self.rng = random.Random(seed)
        self.scale = scale
        self.spread = spread
        self.val = {}
        self.fun = {}
        self.leaf = leaf
        self.subst = subst or {}
        self.memo = {}
        for t, v in (given or {}).items():
            self.val[t] = self.num(v(self.rng) if callable(v) else v)
        for g in unit:
            v = [self.rng.uniform(-1, 1) for _ in g]
            v = [self.num(x) for x in v]
            h = self.math.sqrt(sum(x * x for x in v))
            for t, x in zip(g, v):
                self.val[t] = x / h
        for g in ortho:
            R = euler(*[self.num(self.rng.uniform(-3, 3)) for _ in range(3)], math=self.math)
            for k, t in enumerate(g):
                self.val[t] = R[k // 3][k % 3]

    def unknown(self, t):
        if t not in self.val:
            v = self.rng.uniform(0.3, 1.7) * self.scale
            if self.spread:
                v *= 10 ** self.rng.uniform(-self.spread, self.spread)
            v = self.num(v)
            self.val[t] = v if self.rng.random() < 0.6 else -v
        return self.val[t]

    def smooth(self, name, args):
        key = (name, len(args))
        if key not in self.fun:
            r = random.Random(repr((name, len(args), self.rng.random())))
            self.fun[key] = [r.uniform(-3, 3)] + [r.uniform(0.4, 1.6) for _ in args]
        k = self.fun[key]
        return k[0] + sum(c * self.math.sin(x * (0.7 + 0.1 * i) + c) for i, (c, x) in enumerate(zip(k[1:], args)))

    def ev(self, root):
        m = self.memo
        st = [root]
        while st:
            t = st[-1]
            if t in m:
                st.pop()
                continue
            need = [x for x in self.deps(t) if x not in m]
            if need:
                st.extend(need)
                if len(st) > 200000:
                    raise Bad("depth")
                continue
            m[t] = self.one(t)
            st.pop()
        return m[root]

    def deps(self, t):
        if t in self.subst or (self.leaf is not None and self.leaf(t) is not None):
            x = self.subst.get(t)
            if x is None:
                x = self.leaf(t)
            return (x,) if isinstance(x, T) and x is not t else ()
        if t.op in ("add", "sub", "mul", "div", "mod", "lt", "le", "eq") and len(t.a) == 3:
            return t.a[1:]
        if t.op in ("neg", "cast"):
            return t.a[1:2]
        if t.op in ("not", "and", "or"):
            return t.a
        if t.op == "ite":
            k = t.a[0]
            if k in self.memo:
                return (t.a[1] if self.memo[k] else t.a[2],)
            return (k,)
        if t.op == "call":
            return tuple(x for x in t.a[1:] if isinstance(x, T) and self.isnum(x))
        return ()

    @staticmethod
    def isnum(x):
        return x.op not in ("str", "par", "obj", "fld", "tmp", "el")

    def one(self, t):
        m = self.memo
        if t in self.subst:
            v = self.subst[t]
            return m[v] if isinstance(v, T) else v
        if self.leaf is not None:
            x = self.leaf(t)
            if x is not None:
                return m[x] if x is not t else self.unknown(t)
        o, a = t.op, t.a
        try:
            if o == "c":
                if isinstance(a[0], bool):
                    return a[0]
                if isinstance(a[0], (int, float)):
                    return self.num(a[0]) if self.mp else a[0]
                return self.unknown(t)
            if o == "add" and len(a) == 3:
                return m[a[1]] + m[a[2]]
            if o == "sub" and len(a) == 3:
                return m[a[1]] - m[a[2]]
            if o == "mul" and len(a) == 3:
                return m[a[1]] * m[a[2]]
            if o == "div" and len(a) == 3:
                if a[0] and a[0][0] in "iu":
                    return int(m[a[1]] / m[a[2]])
                return m[a[1]] / m[a[2]]
            if o == "mod" and len(a) == 3:
                return self.fmod(m[a[1]], m[a[2]])
            if o == "neg":
                return -m[a[1]]
            if o == "cast":
                v = m[a[1]]
                if a[0] and a[0][0] in "iu" and not isinstance(v, (int, bool)):
                    return self.num(int(v))
                return v
            if o in ("lt", "le", "eq") and len(a) == 3:
                x, y = m[a[1]], m[a[2]]
                return x < y if o == "lt" else x <= y if o == "le" else x == y
            if o == "not":
                return not m[a[0]]
            if o == "and":
                return all(m[x] for x in a)
            if o == "or":
                return any(m[x] for x in a)
            if o == "ite":
                return m[a[1]] if m[a[0]] else m[a[2]]
            if o == "call" and isinstance(a[0], str):
                return self.call(a[0], [m[x] for x in a[1:] if isinstance(x, T) and self.isnum(x)], t)
        except (ZeroDivisionError, ValueError, OverflowError):
            raise Bad("domain")
        return self.unknown(t)

    def fmod(self, x, y):
        if not self.mp:
            return math.fmod(x, y)
        return x - y * int(x / y)

    def call(self, full, x, t):
        if self.mp:
            x = [self.num(v) for v in x]
            r = self.call0(full, x, t)
            if isinstance(r, (int, float)) and not isinstance(r, bool):
                r = self.num(r)
            if isinstance(r, self.mp.mpc):
                raise Bad("domain")
            return r
        return self.call0(full, x, t)

    def call0(self, full, x, t):
        math = self.math
        n = full.split("::")[-1]
        if n in ("abs", "fabs"):
            return abs(x[0])
        if n in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log10", "log2", "sqrt", "erf",
                 "expm1", "log1p", "floor", "ceil", "trunc", "asinh", "atanh") and len(x) == 1:
            if self.mp and n == "trunc":
                return self.num(int(x[0]))
            if self.mp and n == "log2":
                return math.log(x[0], 2)
            r = getattr(math, n)(x[0])
            return r if self.mp else float(r)
        if n == "cbrt":
            return abs(x[0]) ** (self.num(1) / 3) * (-1 if x[0] < 0 else 1)
        if n == "exp2":
            return 2.0 ** x[0]
        if n == "pow" and len(x) == 2:
            if x[0] == 0 and x[1] == 0:
                return 1.0
            v = x[0] ** x[1]
            if isinstance(v, complex):
                raise Bad("domain")
            return v
        if n == "hypot":
            return math.sqrt(sum(v * v for v in x))
        if n == "atan2":
            return math.atan2(*x)
        if n == "fmod":
            return self.fmod(*x)
        if n == "copysign":
            return abs(x[0]) * (-1 if x[1] < 0 else 1)
        if n in ("max", "fmax") and len(x) == 2:
            return max(x)
        if n in ("min", "fmin") and len(x) == 2:
            return min(x)
        if n == "clamp" and len(x) == 3:
            return min(max(x[0], x[1]), x[2])
        if n in ("lerp", "mix") and len(x) == 3:
            return x[0] + x[2] * (x[1] - x[0])
        if n == "fma":
            return x[0] * x[1] + x[2]
        if n == "radians":
            return math.radians(x[0])
        if n == "degrees":
            return math.degrees(x[0])
        if n in ("round", "lround"):
            return math.floor(abs(x[0]) + 0.5) * (-1 if x[0] < 0 else 1)
        if n in ("isnan", "isinf"):
            return False
        if n == "isfinite":
            return True
        g = GS.match(n)
        if g and len(x) == 9:
            return self.gs(tuple(x))[int(g.group(1))][int(g.group(2))]
        f = FAM.match(full)
        if f:
            R = euler(*[self.smooth(f.group(1) + k, x) for k in "abc"], math=math)
            return R[int(f.group(2))][int(f.group(3))]
        return self.smooth(full, x)

    def gs(self, x):
        a, b = x[:3], x[3:6]
        na = self.math.sqrt(sum(v * v for v in a))
        a = [v / na for v in a]
        d = sum(v * w for v, w in zip(a, b))
        b = [w - d * v for v, w in zip(a, b)]
        nb = self.math.sqrt(sum(v * v for v in b))
        b = [v / nb for v in b]
        return (a, b, (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]))


def near(x, y, tol):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    return abs(x - y) <= tol * max(abs(x), abs(y), 1e-3)


SCALE = (1.0, 1.0, 0.1, 10.0, 1.0, 1e-3)
SPREAD = (0, 0, 0, 0, 2, 0)


def compare(s, wants, true=(), false=(), positive=(), nonneg=(), tol=1e-7, n=8, tries=120, leaf=None, subst=None, ortho=(), given=None, unit=(), **k):
    """True: equal fingerprints; a Point: where they differ; None: no admissible assignment found."""
    exact = 1e-14 if tol <= 1e-9 else tol
    tol = max(tol, 1e-10)
    seen = 0
    mp = _mp()
    alive = set(range(len(wants)))
    last = None
    for i in range(tries):
        p = Point(i, scale=SCALE[i % 6], ortho=ortho, leaf=leaf, subst=subst, spread=SPREAD[i % 6], given=given, unit=unit)
        try:
            if not all(p.ev(t) for t in true) or any(p.ev(t) for t in false) or not all(p.ev(t) > 0 for t in positive) or not all(p.ev(t) >= 0 for t in nonneg):
                continue
            x = p.ev(s)
            ys = []
            for w in wants:
                ys.append(p.ev(w))
        except (Bad, TypeError, OverflowError, RecursionError):
            continue
        if any(isinstance(v, float) and not math.isfinite(v) for v in [x] + ys):
            continue
        seen += 1
        for j in list(alive):
            if not near(x, ys[j], tol * 100):
                alive.discard(j)
                last = (p, x, ys[j])
        if alive and mp is not None and seen in (1, 3):
            # the same assignment in high precision: rounding no longer hides a small difference
            with mp.workdps(60):
                q = Point(i, scale=SCALE[i % 6], ortho=ortho, leaf=leaf, subst=subst, spread=SPREAD[i % 6], given=given, unit=unit, mp=mp)
                try:
                    x = q.ev(s)
                    for j in list(alive):
                        y = q.ev(wants[j])
                        if not near(x, y, exact):
                            alive.discard(j)
                            last = (q, x, y)
                except (Bad, TypeError, OverflowError, RecursionError, ValueError, ZeroDivisionError):
                    pass
        if not alive:
            return (last[0], float(last[1]), float(last[2]))
        if seen >= n:
            break
    return True if seen >= min(n, 4) else None
