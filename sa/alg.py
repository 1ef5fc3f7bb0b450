"""Equality of value-graph terms as real functions: rational normal form over atoms, with case analysis
on the conditions that select between values.

`Alg.same(s, t)` decides s = t over the reals, for every input allowed by the assumptions, by
 * expanding both sides into numerator/denominator polynomials with exact rational coefficients,
 * the relations sqrt(p)^2 = p, sin^2 + cos^2 = 1, parity of sin/cos/tan/..., pow/exp/log rewrites,
 * splitting on the conditions of conditional values (min, max, clamp and abs are conditional values),
   with inconsistent combinations pruned.
Everything it does not know is an uninterpreted function (equal arguments give equal values).
"""
import math
from fractions import Fraction

from . import terms as tm
from .terms import T

TOL = 1e-7


class Split(Exception):
    def __init__(self, cid):
        self.cid = cid


class TooBig(Exception):
    pass


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if v != v or v in (math.inf, -math.inf):
        return None
    if v == int(v) and abs(v) < 1e18:
        return int(v)
    # constants that went through float32 keep about 7 digits
    f = Fraction(v).limit_denominator(1000)
    if abs(float(f) - v) <= 1e-8 * abs(v) and f != 0:
        return f if f.denominator != 1 else f.numerator
    return Fraction(repr(v))


class Alg:
    MAXTERMS = 6000
    MAXWORK = 400000

    def __init__(self, positive=(), nonneg=(), leaf=None, true=(), false=(), maxsplit=200, finite=True, subst=None, unit=(), tol=TOL):
        self.tol = tol
        self.atoms = []          # id -> (kind, payload)
        self.tatom = {}          # T -> atom id
        self.funs = {}           # function name -> [(args, atom id)]
        self.sq = {}             # atom id -> (N, D): its square
        self.conds = []          # id -> ("lt", poly) | ("eq", poly) | ("b", T)
        self.cindex = {}
        self.asg = {}
        self.memo = {}
        self.leaf = leaf
        self.nsplit = 0
        self.work = 0
        self.maxsplit = maxsplit
        self.finite = finite
        self.nonneg_atoms = set()
        self.pos_atoms = set()
        self.subst = dict(subst or {})
        self.pi = self.mkatom("pi", None)
        self.pos_atoms.add(self.pi)
        self.assume_pos = []
        for t in positive:
            n, d = self.rat(t)
            self.declare(n, d, True)
        for t in nonneg:
            n, d = self.rat(t)
            self.declare(n, d, False)
        for u in unit:
            # x^2 = 1 - (sum of the other components' squares)
            ids = [self.of_t(t) for t in u]
            n = {(): 1}
            for i in ids[1:]:
                n[((i, 2),)] = -1
            self.sq[ids[0]] = (n, {(): 1})
        self.assume_true = list(true)
        self.assume_false = list(false)
        self._applied = False

    def declare(self, n, d, strict):
        if d == {(): 1} and len(n) == 1:
            (m, v), = n.items()
            if v > 0 and len(m) == 1 and m[0][1] == 1:
                (self.pos_atoms if strict else self.nonneg_atoms).add(m[0][0])
                return
        p = self.mul(n, d)
        self.assume_pos.append((p, strict))

    # ---- atoms ------------------------------------------------------------------------------
    def mkatom(self, kind, payload):
        self.atoms.append((kind, payload))
        return len(self.atoms) - 1

    def of_t(self, t):
        i = self.tatom.get(t)
        if i is None:
            i = self.tatom[t] = self.mkatom("t", t)
        return i

    def of_fun(self, name, args):
        """Atom f(args), args as rational pairs or hashables."""
        L = self.funs.setdefault((name, len(args)), [])
        for xs, i in L:
            if all((self.ratsame(p, q) if isinstance(p, tuple) and isinstance(q, tuple) else p is q or p == q) for p, q in zip(xs, args)):
                return i
        i = self.mkatom("f", (name, args))
        L.append((args, i))
        return i

    @staticmethod
    def var(i, e=1):
        return {((i, e),): 1}

    # ---- polynomials ------------------------------------------------------------------------
    @staticmethod
    def add(p, q, k=1):
        if not q:
            return p
        r = dict(p)
        for m, v in q.items():
            x = r.get(m, 0) + k * v
            if x == 0:
                r.pop(m, None)
            else:
                r[m] = x
        return r

    def mul(self, p, q):
        if p == {(): 1}:
            return q
        if q == {(): 1}:
            return p
        self.work += len(p) * len(q)
        if len(p) * len(q) > self.MAXTERMS * 8 or self.work > self.MAXWORK:
            raise TooBig()
        r = {}
        for m, v in p.items():
            for n, w in q.items():
                if not m:
                    k = n
                elif not n:
                    k = m
                else:
                    d = dict(m)
                    for a, e in n:
                        d[a] = d.get(a, 0) + e
                    k = tuple(sorted(d.items()))
                x = r.get(k, 0) + v * w
                if x == 0:
                    r.pop(k, None)
                else:
                    r[k] = x
        if len(r) > self.MAXTERMS:
            raise TooBig()
        return self.reduce(r)

    def reduce(self, p):
        """Apply square relations: every squared root/sine is replaced."""
        for _ in range(40):
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in self.sq and self.sq[a][1] == {(): 1}:
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            N = self.sq[hit][0]
            out = {}
            for m, v in p.items():
                d = dict(m)
                e = d.get(hit, 0)
                if e < 2:
                    x = out.get(m, 0) + v
                    if x == 0:
                        out.pop(m, None)
                    else:
                        out[m] = x
                    continue
                d.pop(hit)
                if e % 2:
                    d[hit] = 1
                base = {tuple(sorted(d.items())): v}
                for _ in range(e // 2):
                    base = self.mul0(base, N)
                out = self.add(out, base)
            p = out
            if len(p) > self.MAXTERMS:
                raise TooBig()
        return p

    def mul0(self, p, q):
        self.work += len(p) * len(q)
        if self.work > self.MAXWORK:
            raise TooBig()
        r = {}
        for m, v in p.items():
            for n, w in q.items():
                d = dict(m)
                for a, e in n:
                    d[a] = d.get(a, 0) + e
                k = tuple(sorted(d.items()))
                x = r.get(k, 0) + v * w
                if x == 0:
                    r.pop(k, None)
                else:
                    r[k] = x
        return r

    # ---- rationals --------------------------------------------------------------------------
    def radd(self, x, y, k=1):
        (a, b), (c, d) = x, y
        if b == d:
            return self.norm(self.add(a, c, k), b)
        if not a:
            return ({m: k * v for m, v in c.items()}, d)
        if not c:
            return x
        # cheap common denominators for monomials
        if len(b) == 1 and len(d) == 1:
            (mb, vb), = b.items()
            (md, vd), = d.items()
            l = dict(mb)
            for i, e in md:
                l[i] = max(l.get(i, 0), e)
            def co(m):
                dd = dict(m)
                return tuple(sorted((i, e - dd.get(i, 0)) for i, e in l.items() if e - dd.get(i, 0)))
            n = self.add(self.mul(a, {co(mb): vd}), self.mul(c, {co(md): vb}), k)
            return self.norm(n, {tuple(sorted(l.items())): vb * vd})
        return self.norm(self.add(self.mul(a, d), self.mul(c, b), k), self.mul(b, d))

    def rmul(self, x, y):
        (a, b), (c, d) = x, y
        if a and a == d:
            return self.norm(c, b)
        if c and c == b:
            return self.norm(a, d)
        return self.norm(self.mul(a, c), self.mul(b, d))

    def rinv(self, x):
        if not x[0]:
            return None
        return self.norm(x[1], x[0])

    def norm(self, n, d):
        """Cancel monomial content and constant denominators."""
        if not n:
            return ({}, {(): 1})
        if len(d) == 1:
            (m, v), = d.items()
            if not m:
                if v == 1:
                    return (n, d)
                return ({k: self.q(x, v) for k, x in n.items()}, {(): 1})
            # a root in the denominator: 1/S = S/S^2
            common = dict(m)
            for k in n:
                kk = dict(k)
                for i in list(common):
                    e = kk.get(i, 0)
                    if e < common[i]:
                        if e:
                            common[i] = e
                        else:
                            del common[i]
                if not common:
                    break
            if common:
                def strip(k):
                    return tuple((i, e - common.get(i, 0)) for i, e in k if e - common.get(i, 0))
                n = {strip(k): x for k, x in n.items()}
                m = strip(m)
            n = {k: self.q(x, v) for k, x in n.items()}
            return (n, {m: 1})
        if len(n) == len(d):
            # n proportional to d?
            it = iter(n.items())
            m0, v0 = next(it)
            w0 = d.get(m0)
            if w0 is not None:
                r = Fraction(v0) / Fraction(w0)
                if all(k in d and Fraction(x) == r * Fraction(d[k]) for k, x in n.items()):
                    return ({(): self.i(r)}, {(): 1})
        lead = min(d)
        v = d[lead]
        if v != 1:
            n = {k: self.q(x, v) for k, x in n.items()}
            d = {k: self.q(x, v) for k, x in d.items()}
        return (n, d)

    @staticmethod
    def i(f):
        return f.numerator if isinstance(f, Fraction) and f.denominator == 1 else f

    @classmethod
    def q(cls, x, v):
        if v == 1:
            return x
        return cls.i(Fraction(x) / Fraction(v))

    def rpow(self, x, k):
        if k < 0:
            x = self.rinv(x)
            if x is None:
                return None
            k = -k
        r = ({(): 1}, {(): 1})
        for _ in range(k):
            r = self.rmul(r, x)
        return r

    def close(self, p, q):
        """Polynomials equal up to rounding of the constants."""
        if p == q:
            return True
        sc = max([abs(v) for v in p.values()] + [abs(v) for v in q.values()] + [0])
        for m in set(p) | set(q):
            a, b = p.get(m, 0), q.get(m, 0)
            if a == b:
                continue
            if abs(a - b) <= self.tol * max(abs(a), abs(b)):
                continue
            if abs(a - b) <= 1e-13 * sc:
                continue
            return False
        return True

    def ratsame(self, x, y):
        if x is None or y is None:
            return x is y
        if x == y:
            return True
        (a, b), (c, d) = x, y
        if b == d:
            if self.close(a, c):
                return True
        return self.close(self.full(self.mul(a, d)), self.full(self.mul(c, b)))

    def full(self, p):
        """Reduce squares whose relation has a denominator too (multiplied through by the caller's equality)."""
        return self.reduce(p)

    def zero(self, x):
        return self.close(x[0], {})

    # ---- conditions -------------------------------------------------------------------------
    def cond(self, t):
        """('c', bool) or (cid, polarity)."""
        o, a = t.op, t.a
        if o == "c":
            return ("c", bool(a[0]))
        if o == "not":
            r = self.cond(a[0])
            return ("c", not r[1]) if r[0] == "c" else (r[0], not r[1])
        if t in self.subst and isinstance(self.subst[t], bool):
            return ("c", self.subst[t])
        if o == "call" and isinstance(a[0], str):
            n = a[0].split("::")[-1]
            if self.finite and n in ("isnan", "isinf"):
                return ("c", False)
            if self.finite and n == "isfinite":
                return ("c", True)
        if o in ("lt", "le", "eq") and len(a) == 3:
            x, y = self.rat(a[1]), self.rat(a[2])
            if x is not None and y is not None:
                if o == "eq" and a[1].op in ("c",) and isinstance(a[1].a[0], bool):
                    pass
                else:
                    if o == "le":
                        return self.neg(self.ltcond(y, x))
                    if o == "lt":
                        return self.ltcond(x, y)
                    return self.eqcond(x, y)
        i = self.cindex.get(t)
        if i is None:
            # semantic match against other opaque conditions
            key = self.ckey(t)
            for j, cd in enumerate(self.conds):
                if cd[0] == "b" and cd[2] == key and key is not None:
                    i = j
                    break
            if i is None:
                self.conds.append(("b", t, key))
                i = len(self.conds) - 1
            self.cindex[t] = i
        return (i, True)

    def ckey(self, t):
        if t.op == "call":
            r = []
            for x in t.a[1:]:
                r.append(self.key(x) if isinstance(x, T) else x)
            return ("call", t.a[0]) + tuple(r)
        return None

    def key(self, t):
        x = self.rat(t)
        return self.rkey(x) if x is not None else t

    def rkey(self, x):
        return self.of_fun("$id", (x,))

    @staticmethod
    def neg(r):
        return ("c", not r[1]) if r[0] == "c" else (r[0], not r[1])

    def polysign(self, p, depth=0):
        """'+', '0+', '-', '0-', '0' or None."""
        if not p:
            return "0"
        s = None
        strict = False
        for m, v in p.items():
            pos = True
            st = True
            for a, e in m:
                if a in self.pos_atoms or (a in self.sq and self.atoms[a][0] == "root" and False):
                    continue
                if a in self.nonneg_atoms or self.atoms[a][0] == "root":
                    st = False
                    continue
                if e % 2 == 0:
                    st = False
                    continue
                pos = False
                break
            if not pos:
                s = None
                break
            g = "+" if v > 0 else "-"
            if s is None:
                s = g
            elif s != g:
                s = None
                break
            strict = strict or st
        else:
            return s if strict else "0" + s
        # a declared positive polynomial, or one that differs from it by a sign-definite one
        if depth == 0:
            for q, strictq in self.assume_pos:
                for k in (1, -1):
                    r = self.add(p, q, -k)     # p = k*q + r
                    sg = self.polysign(r, 1)
                    if sg is None:
                        continue
                    want = "+" if k == 1 else "-"
                    if sg == "0" or sg[-1] == want:
                        return want if (strictq or sg == want) else "0" + want
        return None

    def sign(self, n, d):
        a, b = self.polysign(n), self.polysign(d)
        if a is None or b is None:
            if b is None and a is not None and len(d) == 1:
                pass
            return None
        if a == "0":
            return "0"
        neg = (a[-1] == "-") != (b[-1] == "-")
        return ("" if len(a) == 1 else "0") + ("-" if neg else "+")

    def ltcond(self, x, y):
        """x < y  <=>  (x - y) < 0."""
        n, d = self.radd(x, y, -1)
        s = self.sign(n, d)
        if s in ("+", "0+", "0"):
            return ("c", False)
        if s == "-":
            return ("c", True)
        if s == "0-":
            # a boundary of measure zero
            return ("c", True)
        sd = self.polysign(d)
        if sd is None:
            p = self.mul(n, d)
        else:
            p = n if sd[-1] == "+" else {m: -v for m, v in n.items()}
        return self.intern("lt", p)

    def eqcond(self, x, y):
        n, d = self.radd(x, y, -1)
        if not n:
            return ("c", True)
        s = self.polysign(n)
        if s in ("+", "-"):
            return ("c", False)
        if n.keys() == {()}:
            return ("c", False)
        return self.intern("eq", n)

    def intern(self, kind, p):
        lead = min(p)
        v = abs(p[lead]) if kind == "lt" else p[lead]
        p = {m: self.q(x, v) for m, x in p.items()}
        # drop positive content
        com = None
        for m in p:
            dm = dict(m)
            if com is None:
                com = dict(dm)
            else:
                com = {a: min(e, dm[a]) for a, e in com.items() if a in dm}
            if not com:
                break
        if com and kind == "lt":
            com = {a: e for a, e in com.items() if a in self.pos_atoms}
        if com:
            p = {tuple((a, e - com.get(a, 0)) for a, e in m if e - com.get(a, 0)): x for m, x in p.items()}
        for i, cd in enumerate(self.conds):
            if cd[0] == kind and self.close(cd[1], p):
                return (i, True)
        self.conds.append((kind, p, None))
        return (len(self.conds) - 1, True)

    def value(self, t):
        """Truth of a condition under the current case, splitting if undecided."""
        if t.op in ("and", "or"):
            x = self.value(t.a[0])
            if t.op == "and":
                return self.value(t.a[1]) if x else False
            return True if x else self.value(t.a[1])
        if t.op == "ite":
            return self.value(t.a[1]) if self.value(t.a[0]) else self.value(t.a[2])
        if t.op == "not":
            return not self.value(t.a[0])
        if t.op == "eq" and len(t.a) == 3 and t.a[1].op in ("lt", "le", "eq", "not", "and", "or", "c") and t.a[2].op in ("lt", "le", "eq", "not", "and", "or"):
            return self.value(t.a[1]) == self.value(t.a[2])
        k, pol = self.cond(t)
        if k == "c":
            return pol
        v = self.decide(k)
        if v is None:
            raise Split(k)
        return v == pol

    def decide(self, k):
        if k in self.asg:
            return self.asg[k]
        kind, p = self.conds[k][0], self.conds[k][1]
        if kind == "lt":
            # implied by sign facts made in this case
            for j, v in self.asg.items():
                kj, pj = self.conds[j][0], self.conds[j][1]
                if kj != "lt":
                    continue
                # v: pj < 0 ; not v: pj >= 0
                base = pj if v else {m: -x for m, x in pj.items()}     # base <(=) 0
                for scale in self.ratios(p, base):
                    # p = scale*base + r with r <= 0 -> p < 0
                    r = self.add(p, base, -scale)
                    sg = self.polysign(r)
                    if sg in ("0", "-", "0-"):
                        return True
                    # p = -scale*base + r with r >= 0 -> p > 0
                    r = self.add(p, base, scale)
                    sg = self.polysign(r)
                    if sg in ("0", "+", "0+"):
                        return False
        elif kind == "eq":
            for j, v in self.asg.items():
                kj, pj = self.conds[j][0], self.conds[j][1]
                if kj == "lt":
                    base = pj if v else {m: -x for m, x in pj.items()}
                    for s in (1, -1):
                        r = self.add(p, base, -s)
                        sg = self.polysign(r)
                        want = "-" if s == 1 else "+"
                        if sg == "0" or (sg and sg[-1] == want):
                            return False
        return None

    def ratios(self, p, q):
        out = [1]
        for m, v in p.items():
            if m and m in q:
                r = abs(Fraction(v) / Fraction(q[m]))
                if r not in out:
                    out.append(r)
                    if len(out) > 3:
                        break
        return out

    # ---- terms ------------------------------------------------------------------------------
    def rat(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.rat0(t)
            self.memo[t] = r
        return r

    def V(self, i):
        return (self.var(i), {(): 1})

    def const(self, v):
        if isinstance(v, float) and v:
            r = v / math.pi
            for den in (1, 2, 3, 4, 6, 8, 180, 360, 12, 16, 90):
                k = r * den
                if abs(k) >= 0.5 and abs(k - round(k)) < 1e-8 * abs(k) * (6 if abs(k) < 1e6 else 1) and abs(round(k)) < 2000:
                    return ({((self.pi, 1),): self.i(Fraction(round(k), den))}, {(): 1})
            r = v * math.pi
            for den in (1, 2, 4):
                k = r * den
                if abs(k) >= 0.5 and abs(k - round(k)) < 1e-8 * abs(k) and abs(round(k)) <= 360:
                    return ({(): self.i(Fraction(round(k), den))}, self.var(self.pi))
        x = num(v)
        if x is None:
            return self.V(self.of_fun("const", (str(v),)))
        return ({(): x} if x else {}, {(): 1})

    def rat0(self, t):
        if t in self.subst:
            v = self.subst[t]
            if not isinstance(v, bool):
                return self.rat(v)
        if self.leaf is not None:
            x = self.leaf(t)
            if x is not None:
                return self.rat(x) if x is not t else self.V(self.of_t(t))
        o, a = t.op, t.a
        if o == "c":
            v = a[0]
            if isinstance(v, (int, float)):
                return self.const(v)
            return self.V(self.of_t(t))
        if o == "add":
            return self.bin(a[1], a[2], lambda x, y: self.radd(x, y))
        if o == "sub":
            return self.bin(a[1], a[2], lambda x, y: self.radd(x, y, -1))
        if o == "mul":
            return self.bin(a[1], a[2], self.rmul)
        if o == "neg":
            x = self.rat(a[1])
            return ({m: -v for m, v in x[0].items()}, x[1])
        if o == "div":
            if not (a[0] and a[0][0] in "iu"):
                y = self.rat(a[2])
                if y[0]:
                    return self.rmul(self.rat(a[1]), self.norm(y[1], y[0]))
                return self.V(self.of_fun("div0", (self.rat(a[1]),)))
        if o == "cast":
            k = a[0][0]
            sk = tm.TY.get(a[1], ("f",))[0]
            if k == "f" or (k in "iu" and sk in "iub"):
                return self.rat(a[1])
            if k in "iu":
                return self.V(self.of_fun("trunc", (self.rat(a[1]),)))
        if o == "ite":
            return self.rat(a[1]) if self.value(a[0]) else self.rat(a[2])
        if o in ("lt", "le", "eq", "not", "and", "or"):
            return ({(): 1} if self.value(t) else {}, {(): 1})
        if o == "call":
            return self.call(a[0].split("::")[-1] if isinstance(a[0], str) else str(a[0]), a[0], a[1:], t)
        if o == "prj" and a[0].op == "call":
            return self.V(self.of_fun("prj." + str(a[1] if not isinstance(a[1], T) else a[1].u), (self.rat(a[0]),)))
        return self.V(self.of_t(t))

    def bin(self, x, y, f):
        return f(self.rat(x), self.rat(y))

    def isneg(self, x):
        """Whether to flip the argument of an odd/even function (canonical sign)."""
        n = x[0]
        if not n:
            return False
        return n[min(n)] < 0

    def flip(self, x):
        return ({m: -v for m, v in x[0].items()}, x[1])

    def call(self, n, full, args, t):
        if n in ("fabs",):
            n = "abs"
        A = [self.rat(x) if isinstance(x, T) else x for x in args]
        one = {(): 1}
        if n == "sqrt":
            return self.root(A[0])
        if n == "hypot":
            return self.root(self.radd(self.rmul(A[0], A[0]), self.rmul(A[1], A[1])))
        if n in ("pow",):
            e = A[1]
            if e[1] == one and (not e[0] or set(e[0]) == {()}):
                v = Fraction(e[0].get((), 0))
                if v.denominator == 1 and abs(v) <= 12:
                    r = self.rpow(A[0], int(v))
                    if r is not None:
                        return r
                elif v.denominator == 2 and abs(v) <= 6:
                    k = v.numerator
                    s = self.root(A[0])
                    r = self.rpow(s, k)
                    if r is not None:
                        return r
            return self.V(self.of_fun("pow", (A[0], A[1])))
        if n == "exp2":
            return self.V(self.of_fun("pow", (({(): 2}, one), A[0])))
        if n == "cbrt":
            return self.V(self.of_fun("cbrt", (A[0],)))
        if n == "expm1":
            return self.radd(self.call("exp", "exp", args, t), (one, one), -1)
        if n == "exp":
            x = A[0]
            if not x[0]:
                return (one, one)
            if self.isneg(x):
                i = self.of_fun("exp", (self.flip(x),))
                self.pos_atoms.add(i)
                return (one, self.var(i))
            i = self.of_fun("exp", (x,))
            self.pos_atoms.add(i)
            return self.V(i)
        if n in ("log1p",):
            return self.V(self.of_fun("log", (self.radd(A[0], (one, one)),)))
        if n in ("sin", "cos", "tan"):
            x = A[0]
            if not x[0]:
                return ({}, one) if n != "cos" else (one, one)
            sg = 1
            if self.isneg(x):
                x = self.flip(x)
                sg = -1
            # inverse function
            inv = self.single(x)
            if inv is not None and self.atoms[inv][0] == "f" and self.atoms[inv][1][0] in ("acos", "asin", "atan"):
                g, (y,) = self.atoms[inv][1]
                r = self.trig_of(n, g, y)
                if r is not None:
                    return self.flip(r) if sg < 0 and n != "cos" else r
            ci = self.of_fun("cos", (x,))
            si = self.of_fun("sin", (x,))
            if si not in self.sq:
                self.sq[si] = (self.add({(): 1}, {((ci, 2),): 1}, -1), {(): 1})
            s, c = ({((si, 1),): sg}, one), self.V(ci)
            if n == "sin":
                return s
            if n == "cos":
                return c
            return self.rmul(s, self.norm(c[1], c[0]))
        if n in ("asin", "atan", "sinh", "tanh", "erf", "cbrt", "atanh", "asinh", "round"):
            x = A[0]
            if not x[0]:
                return ({}, one)
            if self.isneg(x):
                return ({((self.of_fun(n, (self.flip(x),)), 1),): -1}, one)
            return self.V(self.of_fun(n, (x,)))
        if n == "acos":
            x = A[0]
            if not x[0]:
                return ({((self.pi, 1),): Fraction(1, 2)}, one)
            if self.isneg(x):
                r = self.V(self.of_fun(n, (self.flip(x),)))
                return self.radd(self.V(self.pi), r, -1)
            return self.V(self.of_fun(n, (x,)))
        if n == "cosh" and self.isneg(A[0]):
            return self.V(self.of_fun(n, (self.flip(A[0]),)))
        if n == "abs":
            x = A[0]
            s = self.sign(*x)
            if s and s[-1] == "+" or s == "0":
                return x
            if s:
                return self.flip(x)
            k, pol = self.ltcond(x, ({}, one))
            v = pol if k == "c" else self.need(k) == pol
            return self.flip(x) if v else x
        if n in ("max", "min", "fmax", "fmin") and len(A) == 2:
            k, pol = self.ltcond(A[0], A[1])
            v = pol if k == "c" else self.need(k) == pol
            if n in ("max", "fmax"):
                return A[1] if v else A[0]
            return A[0] if v else A[1]
        if n == "clamp":
            k, pol = self.ltcond(A[0], A[1])
            if pol if k == "c" else self.need(k) == pol:
                return A[1]
            k, pol = self.ltcond(A[2], A[0])
            if pol if k == "c" else self.need(k) == pol:
                return A[2]
            return A[0]
        if n == "copysign":
            pass
        if n == "radians":
            return self.rmul(A[0], ({((self.pi, 1),): Fraction(1, 180)}, one))
        if n == "degrees":
            return self.rmul(A[0], ({(): 180}, self.var(self.pi)))
        if n in ("atan2",):
            y, x = A
            if self.isneg(y):
                return ({((self.of_fun("atan2", (self.flip(y), x)), 1),): -1}, one)
            return self.V(self.of_fun("atan2", (y, x)))
        if n in ("lerp", "mix") and len(A) == 3:
            return self.radd(A[0], self.rmul(A[2], self.radd(A[1], A[0], -1)))
        if n in ("fma",) and len(A) == 3:
            return self.radd(self.rmul(A[0], A[1]), A[2])
        nm = full if isinstance(full, str) else str(full)
        if nm in ("floor", "ceil", "trunc", "log", "log10", "log2", "fmod") or nm.startswith("std::"):
            nm = n
        return self.V(self.of_fun(nm, tuple(A)))

    def need(self, k):
        v = self.decide(k)
        if v is None:
            raise Split(k)
        return v

    def single(self, x):
        if x[1] == {(): 1} and len(x[0]) == 1:
            (m, v), = x[0].items()
            if v == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def trig_of(self, n, g, y):
        one = ({(): 1}, {(): 1})
        y2 = self.rmul(y, y)
        if g in ("acos", "asin"):
            o = self.root(self.radd(one, y2, -1))
            c, s = (y, o) if g == "acos" else (o, y)
        else:
            h = self.root(self.radd(one, y2))
            ih = self.rinv(h)
            c, s = ih, self.rmul(y, ih)
        if n == "cos":
            return c
        if n == "sin":
            return s
        ic = self.rinv(c)
        return self.rmul(s, ic) if ic else None

    def root(self, x):
        n, d = x
        if not n:
            return ({}, {(): 1})
        if d == {(): 1} and set(n) == {()}:
            v = Fraction(n[()])
            if v >= 0:
                a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if a * a == v.numerator and b * b == v.denominator:
                    return ({(): self.i(Fraction(a, b))}, {(): 1})
        # sqrt(n/d) = sqrt(n*d)/|d| when d has a known sign
        if d != {(): 1}:
            sd = self.polysign(d)
            if sd is not None:
                if sd[-1] == "-":
                    n, d = {m: -v for m, v in n.items()}, {m: -v for m, v in d.items()}
                if len(d) == 1:
                    (m, v), = d.items()
                    # split the even part out of d
                    ev = tuple((i, e - e % 2) for i, e in m if e - e % 2)
                    od = tuple((i, 1) for i, e in m if e % 2)
                    half = tuple((i, e // 2) for i, e in ev)
                    if all(i in self.pos_atoms or i in self.nonneg_atoms or self.atoms[i][0] == "root" or (e // 2) % 2 == 0 for i, e in ev):
                        nn = self.mul(n, {od: v}) if od or v != 1 else n
                        r = self.root((nn, {(): 1}))
                        return self.rmul(r, ({(): 1}, self.mul({half: 1}, {od: v})))
                r = self.root((self.mul(n, d), {(): 1}))
                return self.rmul(r, ({(): 1}, d))
            else:
                i = self.of_fun("sqrt", (x,))
                self.sq.setdefault(i, (n, d))
                self.atoms[i] = ("root", x)
                return self.V(i)
        # even monomial
        if len(n) == 1:
            (m, v), = n.items()
            if v > 0:
                out = []
                rest = []
                for i, e in m:
                    if e >= 2 and (i in self.pos_atoms or i in self.nonneg_atoms or self.atoms[i][0] == "root" or e % 4 == 0):
                        out.append((i, e // 2))
                        if e % 2:
                            rest.append((i, 1))
                    elif e == 2:
                        # |x|
                        k, pol = self.ltcond(self.V(i), ({}, {(): 1}))
                        neg = pol if k == "c" else self.need(k) == pol
                        r = self.root(({tuple(x for x in m if x[0] != i): v}, {(): 1}))
                        return self.rmul(r, ({((i, 1),): -1 if neg else 1}, {(): 1}))
                    else:
                        rest.append((i, e))
                f = Fraction(v)
                a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
                k = 1
                if a * a == f.numerator and b * b == f.denominator:
                    k, v = self.i(Fraction(a, b)), 1
                elif out:
                    pass
                if out or k != 1:
                    r = self.root(({tuple(rest): v}, {(): 1})) if rest or v != 1 else ({(): 1}, {(): 1})
                    return self.rmul(r, ({tuple(sorted(out)): k}, {(): 1}))
        # scale so that proportional radicands share a root
        lead = min(n)
        v = n[lead]
        f = Fraction(abs(v))
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        k = 1
        if f != 1 and a * a == f.numerator and b * b == f.denominator:
            k = self.i(Fraction(a, b))
            n = {m: self.q(x, abs(v)) for m, x in n.items()}
        i = self.of_fun("sqrt", ((n, {(): 1}),))
        self.sq.setdefault(i, (n, {(): 1}))
        self.atoms[i] = ("root", (n, {(): 1}))
        return ({((i, 1),): k}, {(): 1})

    # ---- decision ---------------------------------------------------------------------------
    def cases(self, f):
        """Run f() in every consistent case; yields (assignment, value)."""
        out = []

        def go():
            self.nsplit += 1
            if self.nsplit > self.maxsplit:
                raise TooBig()
            self.memo = {}
            try:
                for t in self.assume_true:
                    if not self.value(t):
                        return
                for t in self.assume_false:
                    if self.value(t):
                        return
                v = f()
            except Split as s:
                for b in (True, False):
                    if self.feasible(s.cid, b):
                        self.asg[s.cid] = b
                        go()
                        del self.asg[s.cid]
                return
            out.append((dict(self.asg), v))
        go()
        self.memo = {}
        return out

    def feasible(self, k, b):
        kind, p = self.conds[k][0], self.conds[k][1]
        if kind == "eq" and b:
            return False       # measure zero: equality is decided by continuity or by a separate rule
        return True

    def same(self, s, t):
        """True / False / None (undecided: expression too large)."""
        if s is t:
            return True
        try:
            r = self.cases(lambda: self.ratsame(self.rat(s), self.rat(t)))
        except TooBig:
            return None
        self.last = [a for a, v in r if not v]
        return all(v for _, v in r)

    def show(self, x):
        def poly(p):
            if not p:
                return "0"
            out = []
            for m, v in list(p.items())[:12]:
                s = "" if v == 1 and m else "%g" % float(v)
                for a, e in m:
                    s += ("*" if s else "") + self.aname(a) + ("^%d" % e if e != 1 else "")
                out.append(s)
            return " + ".join(out) + (" + ..." if len(p) > 12 else "")
        n, d = x
        return poly(n) if d == {(): 1} else "(" + poly(n) + ")/(" + poly(d) + ")"

    def aname(self, a):
        k, p = self.atoms[a]
        if k == "t":
            return tm.show(p)
        if k == "pi":
            return "pi"
        if k == "root":
            return "sqrt(" + self.show(p) + ")"
        return p[0] + "(" + ", ".join(self.show(y) if isinstance(y, tuple) else str(y) for y in p[1]) + ")"

    def describe(self, t):
        try:
            r = self.cases(lambda: self.rat(t))
            return " | ".join(self.show(v) for _, v in r[:3])[:600]
        except TooBig:
            return tm.show(t)[:600]


# ---- oracle expressions -----------------------------------------------------------------------
FT = ("f",)


class E:
    """A term with Python arithmetic, for writing down what a function should compute."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t.t if isinstance(t, E) else t if isinstance(t, T) else tm.c(t)

    def __add__(s, o):
        return E(tm.add(FT, s.t, E(o).t))

    def __radd__(s, o):
        return E(tm.add(FT, E(o).t, s.t))

    def __sub__(s, o):
        return E(tm.sub(FT, s.t, E(o).t))

    def __rsub__(s, o):
        return E(tm.sub(FT, E(o).t, s.t))

    def __mul__(s, o):
        if isinstance(o, V):
            return NotImplemented
        return E(tm.mul(FT, s.t, E(o).t))

    def __rmul__(s, o):
        return E(tm.mul(FT, E(o).t, s.t))

    def __truediv__(s, o):
        return E(tm.div(FT, s.t, E(o).t))

    def __rtruediv__(s, o):
        return E(tm.div(FT, E(o).t, s.t))

    def __neg__(s):
        return E(tm.neg(FT, s.t))

    def __pow__(s, k):
        if isinstance(k, int) and k > 0:
            r = s
            for _ in range(k - 1):
                r = r * s
            return r
        return E(tm.call("pow", s.t, E(k).t))

    def lt(s, o):
        return E(tm.lt(FT, s.t, E(o).t))

    def __repr__(s):
        return tm.show(s.t)


def F(name, *a):
    return E(tm.call(name, *[E(x).t for x in a]))


def sqrt(x):
    return F("sqrt", x)


def ite(k, a, b):
    return E(tm.ite(E(k).t, E(a).t, E(b).t))


class V(list):
    """A vector of E."""

    def __add__(s, o):
        return V(x + y for x, y in zip(s, o))

    def __sub__(s, o):
        return V(x - y for x, y in zip(s, o))

    def __mul__(s, k):
        return V(x * k for x in s)

    __rmul__ = __mul__

    def __truediv__(s, k):
        return V(x / k for x in s)

    def __neg__(s):
        return V(-x for x in s)

    def dot(s, o):
        r = None
        for x, y in zip(s, o):
            r = x * y if r is None else r + x * y
        return r

    def cross(s, o):
        return V([s[1] * o[2] - s[2] * o[1], s[2] * o[0] - s[0] * o[2], s[0] * o[1] - s[1] * o[0]])

    def norm(s):
        return sqrt(s.dot(s))

    def unit(s):
        return s / s.norm()
