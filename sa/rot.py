"""Rotation matrices in witnesses: the library's re-orthonormalisation as a (separately checked) function."""
from . import terms as tm
from .alg import E, V, F, sqrt
from .models import mat_vals, mat_result

FT = ("f",)


def gs_terms(A):
    """A: columns of T. What orthonormalising a (nearly orthonormal) matrix returns."""
    # already the result of an orthonormalisation, or the transpose of one
    def head(x, i, j):
        return x.a[1:] if x.op == "call" and x.a[0] == "GS%d%d" % (i, j) else None
    for tr in (False, True):
        h = head(A[0][0], 0, 0)
        if h is not None and all(head(A[i][j], *((j, i) if tr else (i, j))) == h for i in range(3) for j in range(3)):
            return A
    fl = [x for c in A for x in c]
    ident = all(x.op == "c" and x.a[0] == (1 if k in (0, 4, 8) else 0) for k, x in enumerate(fl))
    if ident:
        return A
    return [[tm.settype(tm.call("GS%d%d" % (i, j), *fl), FT) for j in range(3)] for i in range(3)]


def gs(cols):
    return [V(E(x) for x in c) for c in gs_terms([[y.t for y in c] for c in cols])]


def gs_real(cols):
    x = cols[0].unit()
    y = cols[1] - x * cols[1].dot(x)
    y = y.unit()
    return [x, y, x.cross(y)]


def model(I, n, f, this, args, argn, on, st, fr):
    A = mat_vals(I, st, args[0], argn[0].t)
    return mat_result(I, n, st, fr, gs_terms(A))


def model_raw(I, n, f, this, args, argn, on, st, fr):
    return mat_result(I, n, st, fr, mat_vals(I, st, args[0], argn[0].t))


def fill_model(fieldof, raw=False):
    """A member that stores the orthonormalised argument in field fieldof[id of the function] of its object."""
    def m(I, n, f, this, args, argn, on, st, fr):
        if f.id not in fieldof:
            return NotImplemented
        A = mat_vals(I, st, args[0], argn[0].t)
        A = A if raw else gs_terms(A)
        b = tm.mk("fld", this, fieldof[f.id])
        I.kill_sub(st, b)
        for i in range(3):
            for j in range(3):
                st.store[tm.el(tm.el(b, tm.c(i)), tm.c(j))] = A[i][j]
        return tm.c(0)
    return m


def discover(P, raw=False):
    """Finds the members of Rotation that re-orthonormalise a matrix, whatever they are called: one matrix
    parameter, and the matrix returned (or stored) is gs_real of it. Returns models for them
    (raw: the identity, for analyses that assume matrices of rotations are orthonormal)."""
    from . import absint
    from .alg import Alg
    out = {}
    fieldof = {}
    for f in P.defs:
        if f.clskey != "huira::Rotation" or not f.has_body or len(f.params) != 1 or f.sp in ("ctor", "lambda"):
            continue
        if P.ty(f.params[0]["t"])["k"] == "rref" or "mat<3, 3" not in deref(P, f.params[0]["t"]).get("s", ""):
            continue
        ret = "mat<3, 3" in P.ty(f.ret).get("s", "")
        if not ret and P.ty(f.ret)["k"] != "void":
            continue
        I = absint.Interp(P, None, inline=lambda g: not g.key.startswith("huira::Logger"), budget=100000)
        this = tm.mk("obj", "this")
        try:
            r = I.run(f, this=this)
        except absint.Budget:
            continue
        if r.st is None:
            continue
        a = tm.mk("par", f.params[0]["d"])
        st = absint.State()
        A = [V(E(I.load(st, tm.el(tm.el(a, tm.c(k)), tm.c(j)), FT)) for j in range(3)) for k in range(3)]
        want = [x for c in gs_real(A) for x in c]
        bases = [(r.val, None)] if ret else [(tm.mk("fld", this, fd["d"]), fd["d"]) for x in P.rec_by_key.get("huira::Rotation", ()) for fd in x.get("fields", ())]
        for b, d in bases:
            got = [E(I.load(r.st, tm.el(tm.el(b, tm.c(i)), tm.c(j)), FT)) for i in range(3) for j in range(3)]
            if all(Alg().same(g.t, w.t) for g, w in zip(got, want)):
                out[f.key] = ((model_raw if raw else model) if ret else fill_model(fieldof, raw), True)
                fieldof[f.id] = d
                break
    return out


def deref(P, t):
    x = P.ty(t)
    return P.ty(x["p"]) if x["k"] in ("ref", "rref") and "p" in x else x


def mul(A, B):
    """Matrix product of column lists."""
    return [apply(A, c) for c in B]


def apply(A, v):
    return V([A[0][j] * v[0] + A[1][j] * v[1] + A[2][j] * v[2] for j in range(3)])


def tr(A):
    return [V([A[j][i] for j in range(3)]) for i in range(3)]


def axis(k, a):
    """Active rotation about a coordinate axis (columns)."""
    c, s, o, i = F("cos", a), F("sin", a), E(0), E(1)
    if k == "x":
        return [V([i, o, o]), V([o, c, s]), V([o, -s, c])]
    if k == "y":
        return [V([c, o, -s]), V([o, i, o]), V([s, o, c])]
    return [V([c, s, o]), V([-s, c, o]), V([o, o, i])]


def rodrigues(u, a):
    """v -> v cos + (u x v) sin + u (u.v)(1-cos), u a unit vector; columns."""
    c, s = F("cos", a), F("sin", a)
    cols = []
    for k in range(3):
        e = V([E(1 if i == k else 0) for i in range(3)])
        cols.append(e * c + u.cross(e) * s + u * (u.dot(e) * (1 - c)))
    return cols


def quat(w, x, y, z):
    """v -> q v q* by its definition; columns."""
    u = V([x, y, z])
    cols = []
    for k in range(3):
        e = V([E(1 if i == k else 0) for i in range(3)])
        cols.append(e * (w * w - u.dot(u)) + u * (u.dot(e) * 2) + u.cross(e) * (w * 2))
    return cols
