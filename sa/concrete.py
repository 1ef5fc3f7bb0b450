"""The value of a term at one point: unknowns are looked up (env: term -> value, or leaf(term) -> value/None).

IEEE rules for NaN and infinities. A guard that compares its input with constants only is decided on every cell of
the partition these constants induce by evaluating it at one point of each cell (see cells()).
"""
import math
import struct
from . import terms as tm
from .terms import T

INF = float("inf")
NAN = float("nan")


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(INF, a) * (math.copysign(1, b) if isinstance(b, float) else 1)
    try:
        return a / b
    except OverflowError:
        return INF


def _f1(g):
    def h(x):
        try:
            return g(float(x))
        except (ValueError, OverflowError):
            return NAN
    return h


FUN = {
    "isnan": lambda x: x != x, "isinf": lambda x: x in (INF, -INF), "isfinite": lambda x: x == x and x not in (INF, -INF),
    "sqrt": _f1(math.sqrt), "sin": _f1(math.sin), "cos": _f1(math.cos), "tan": _f1(math.tan), "exp": _f1(math.exp), "log": _f1(math.log),
    "abs": abs, "fabs": abs, "floor": _f1(math.floor), "ceil": _f1(math.ceil), "atan2": lambda a, b: math.atan2(a, b),
    "asin": _f1(math.asin), "acos": _f1(math.acos), "atan": _f1(math.atan), "signbit": lambda x: math.copysign(1, x) < 0,
    "max": lambda a, b: b if a < b else a, "min": lambda a, b: b if b < a else a,
    "fmax": lambda a, b: a if b != b else b if a != a else max(a, b), "fmin": lambda a, b: a if b != b else b if a != a else min(a, b),
    "clamp": lambda x, a, b: a if x < a else b if b < x else x,
    "isnormal": lambda x: x == x and x not in (INF, -INF, 0),
    "fmod": lambda a, b: math.fmod(a, b) if b else NAN,
    "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "copysign": lambda a, b: math.copysign(a, b), "exp2": _f1(lambda x: 2.0 ** x), "hypot": lambda *a: math.sqrt(sum(x * x for x in a)),
    "log10": _f1(math.log10), "log2": _f1(math.log2), "round": _f1(lambda x: math.floor(abs(x) + 0.5) * math.copysign(1, x)), "trunc": _f1(math.trunc),
}


def _pow(a, b):
    try:
        r = math.pow(a, b)
        return r
    except (ValueError, OverflowError):
        return NAN


FUN["pow"] = _pow


def _bits(fmt_f, fmt_i):
    def h(x):
        try:
            return struct.unpack(fmt_i, struct.pack(fmt_f, x))[0]
        except (OverflowError, struct.error):
            return None
    return h


FUN["verif_bits32"], FUN["verif_bits64"] = _bits("<f", "<i"), _bits("<d", "<q")
FUN["verif_float32"], FUN["verif_float64"] = _bits("<i", "<f"), _bits("<q", "<d")


def concrete(t, env=(), leaf=None, memo=None):
    """Python number/bool, or None when something in it is not known."""
    if memo is None:
        memo = {}
    env = env or {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        r = _one(x, env, leaf, memo)
        if isinstance(r, list):
            st.extend(r)
            continue
        memo[x] = r
        st.pop()
    return memo[t]


def _one(t, env, leaf, m):
    """A value, None, or a list of terms needed first."""
    if t in env:
        return env[t]
    o, a = t.op, t.a
    if o == "c":
        return a[0]
    if o == "nan":
        return NAN
    if o == "inf":
        return INF * a[0]
    if leaf is not None:
        v = leaf(t)
        if v is not None:
            return v

    def get(x):
        return m.get(x, m)  # m itself: not there yet
    if o == "ite":
        k = get(a[0])
        if k is m:
            return [a[0]]
        if k is None:
            xs = [x for x in a[1:] if x not in m]
            if xs:
                return xs
            p, q = m[a[1]], m[a[2]]
            return p if p == q and p is not None else None
        x = a[1] if k else a[2]
        v = get(x)
        return [x] if v is m else v
    if o in ("and", "or"):
        p = get(a[0])
        if p is m:
            return [a[0]]
        stop = o == "or"
        if p is not None and bool(p) == stop:
            return stop
        q = get(a[1])
        if q is m:
            return [a[1]]
        if q is not None and bool(q) == stop:
            return stop
        return None if p is None or q is None else bool(q)
    xs = [x for x in a if isinstance(x, T)]
    need = [x for x in xs if x not in m]
    if need:
        return need
    vs = [m[x] for x in xs]
    if any(v is None for v in vs):
        return None
    try:
        if o == "not":
            return not vs[0]
        if o in ("lt", "le", "eq"):
            p, q = vs[-2:]
            return p < q if o == "lt" else p <= q if o == "le" else p == q
        fl = a and isinstance(a[0], tuple) and a[0][:1] == ("f",)
        if o == "add":
            return _wrap(a[0], vs[0] + vs[1])
        if o == "sub":
            return _wrap(a[0], vs[0] - vs[1])
        if o == "mul":
            return _wrap(a[0], vs[0] * vs[1])
        if o == "div":
            if fl:
                return div(vs[0], vs[1])
            if not vs[1]:
                return None
            q = abs(vs[0]) // abs(vs[1])
            return q if (vs[0] < 0) == (vs[1] < 0) else -q
        if o == "mod":
            if fl or not vs[1]:
                return math.fmod(vs[0], vs[1]) if vs[1] else NAN
            r = abs(vs[0]) % abs(vs[1])
            return -r if vs[0] < 0 else r
        if o in ("&", "|", "^", "<<", ">>"):
            x, y = int(vs[0]), int(vs[1])
            if o in ("<<", ">>") and not 0 <= y < 64:
                return None
            return _wrap(a[0], x & y if o == "&" else x | y if o == "|" else x ^ y if o == "^" else x << y if o == "<<" else x >> y)
        if o == "neg":
            return _wrap(a[0], -vs[0])
        if o == "f2i":
            return cast(a[0], float(vs[-1]))
        if o == "cast":
            return cast(a[0], vs[-1])
        if o == "call":
            g = FUN.get(str(a[0]).split("::")[-1].split("<")[0])
            return g(*vs) if g is not None else None
    except (TypeError, OverflowError, ValueError, ZeroDivisionError):
        return None
    return None


def _wrap(ty, v):
    if isinstance(ty, tuple) and ty[:1] == ("u",) and isinstance(v, int):
        return v % (1 << ty[1])
    return v


def cast(ty, v):
    if not isinstance(ty, tuple):
        return v
    if ty[0] == "f":
        return v if isinstance(v, float) else float(v)
    if ty[0] == "b":
        return bool(v)
    if ty[0] in ("i", "u"):
        if isinstance(v, float):
            if v != v or abs(v) == INF:
                return None
            v = math.trunc(v)
        else:
            v = int(v)
        return tm.wrapc(ty, v) if hasattr(tm, "wrapc") else v
    return v


def cells(t, x, memo=None):
    """Points that represent every cell of the partition which comparisons of x with constants in t induce."""
    cs = {0.0}
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if not isinstance(y, T) or y in seen:
            continue
        seen.add(y)
        if y.op == "c" and isinstance(y.a[0], (int, float)) and not isinstance(y.a[0], bool):
            cs.add(float(y.a[0]))
        st.extend(z for z in y.a if isinstance(z, T))
    cs = sorted(v for v in cs if v == v and abs(v) != INF)
    out = [-INF, cs[0] - 1 - abs(cs[0])]
    for p, q in zip(cs, cs[1:] + [None]):
        out.append(p)
        out.append((p + q) / 2 if q is not None else p + 1 + abs(p))
    return out + [INF, NAN]
