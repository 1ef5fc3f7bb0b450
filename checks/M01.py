"""M01: rotations mean what their inputs say.

Witness functions build rotations through every public constructor and read them back through every
accessor; the value graph of each matrix entry is compared, as a real function of the inputs, with the
definition of the rotation (Rodrigues' formula, q v q*, products of axis rotations).
"""
from sa import fx, rot
from sa import terms as tm
from sa.alg import E, V, F, Alg, sqrt

HEAD = '''
#include "huira/core/rotation.hpp"
using namespace huira;
namespace verif_w {
'''
BODY = '''
namespace %(ns)s {
using S = %(T)s; using R = Rotation<S>; using M = Mat3<S>; using W3 = Vec3<S>; using Q = Quaternion<S>; using SQ = ShusterQuaternion<S>; using Rad = units::Radian;
M l2p_mat(M m) { return R::from_local_to_parent(m).local_to_parent_matrix(); }
M l2p_mat_p(M m) { return R::from_local_to_parent(m).parent_to_local_matrix(); }
M p2l_mat(M m) { return R::from_parent_to_local(m).local_to_parent_matrix(); }
M basis(W3 x, W3 y, W3 z) { return R::from_basis_vectors(x, y, z).local_to_parent_matrix(); }
M identity() { return R().local_to_parent_matrix(); }
M l2p_axis(W3 a, double t) { return R::from_local_to_parent(a, Rad(t)).local_to_parent_matrix(); }
M p2l_axis(W3 a, double t) { return R::from_parent_to_local(a, Rad(t)).local_to_parent_matrix(); }
M l2p_quat(S w, S x, S y, S z) { return R::from_local_to_parent(Q(w, x, y, z)).local_to_parent_matrix(); }
M p2l_quat(S w, S x, S y, S z) { return R::from_parent_to_local(Q(w, x, y, z)).local_to_parent_matrix(); }
M l2p_shus(S w, S x, S y, S z) { return R::from_local_to_parent(SQ(x, y, z, w)).local_to_parent_matrix(); }
M p2l_shus(S w, S x, S y, S z) { return R::from_parent_to_local(SQ(x, y, z, w)).local_to_parent_matrix(); }
W3 axis_x(M m) { return R::from_local_to_parent(m).x_axis(); }
W3 axis_y(M m) { return R::from_local_to_parent(m).y_axis(); }
W3 axis_z(M m) { return R::from_local_to_parent(m).z_axis(); }
M inv(M m) { return R::from_local_to_parent(m).inverse().local_to_parent_matrix(); }
M mul(M a, M b) { return (R::from_local_to_parent(a) * R::from_local_to_parent(b)).local_to_parent_matrix(); }
M muleq(M a, M b) { R r = R::from_local_to_parent(a); r *= R::from_local_to_parent(b); return r.local_to_parent_matrix(); }
W3 app(M m, W3 v) { return R::from_local_to_parent(m) * v; }
Vec4<S> oq_l2p(M m) { Q q = R::from_local_to_parent(m).local_to_parent_quaternion(); return Vec4<S>(q.x, q.y, q.z, q.w); }
Vec4<S> oq_p2l(M m) { Q q = R::from_local_to_parent(m).parent_to_local_quaternion(); return Vec4<S>(q.x, q.y, q.z, q.w); }
Vec4<S> os_l2p(M m) { SQ q = R::from_local_to_parent(m).local_to_parent_shuster_quaternion(); return Vec4<S>(q.x, q.y, q.z, q.w); }
Vec4<S> os_p2l(M m) { SQ q = R::from_local_to_parent(m).parent_to_local_shuster_quaternion(); return Vec4<S>(q.x, q.y, q.z, q.w); }
M l2p_x(double t) { return R::local_to_parent_x(Rad(t)); }
M l2p_y(double t) { return R::local_to_parent_y(Rad(t)); }
M l2p_z(double t) { return R::local_to_parent_z(Rad(t)); }
M p2l_x(double t) { return R::parent_to_local_x(Rad(t)); }
M p2l_y(double t) { return R::parent_to_local_y(Rad(t)); }
M p2l_z(double t) { return R::parent_to_local_z(Rad(t)); }
Mat3<%(U)s> conv(M m) { return static_cast<Rotation<%(U)s>>(R::from_local_to_parent(m)).local_to_parent_matrix(); }
Vec4<S> sh2h(S w, S x, S y, S z) { Q q = to_hamilton(SQ(x, y, z, w)); return Vec4<S>(q.x, q.y, q.z, q.w); }
Vec4<S> h2sh(S w, S x, S y, S z) { return to_shuster(Q(w, x, y, z)); }
%(euler)s
}
'''
SEQ = [a + b + c for a in "xyz" for b in "xyz" for c in "xyz"]
DIG = {"x": "1", "y": "2", "z": "3"}


def spell(q, i):
    return (q.upper(), q, "".join(DIG[k] for k in q))[i % 3]


def text():
    s = HEAD
    for ns, T, U in (("d", "double", "float"), ("f", "float", "double")):
        eu = ""
        for i, q in enumerate(SEQ):
            if ns == "f" and q not in ("xyz", "zyx", "zxz", "yzx"):
                continue
            for w in ("extrinsic", "intrinsic"):
                eu += 'M %s_%s(double a, double b, double c) { return R::%s_euler_angles(Rad(a), Rad(b), Rad(c), "%s").local_to_parent_matrix(); }\n' % (
                    w[0] + "e", q, w, spell(q, i + (w[0] == "i")))
        eu += 'M ee_default(double a, double b, double c) { return R::extrinsic_euler_angles(Rad(a), Rad(b), Rad(c)).local_to_parent_matrix(); }\n'
        eu += 'M ie_default(double a, double b, double c) { return R::intrinsic_euler_angles(Rad(a), Rad(b), Rad(c)).local_to_parent_matrix(); }\n'
        s += BODY % {"ns": ns, "T": T, "U": U, "euler": eu}
    return s + "}\n"


def excluded(o, det):
    """True: matrices with |det - 1| > 0.01 never get out; False: some do; None: not decided."""
    A = Alg()
    hi = lo = None
    nan = True          # whether a NaN determinant may get out
    for t, p in o.r.st.facts.items():
        if t.op == "call" and t.a[0].endswith("isnan") and not p and A.same(t.a[1], E(det).t):
            nan = False
        if t.op == "eq" and p and t.a[-1] is t.a[-2] and A.same(t.a[-1], E(det).t):
            nan = False
        if t.op not in ("lt", "le"):
            continue
        x, y = t.a[1], t.a[2]
        for a, b, gt in ((x, y, not p), (y, x, p)):
            # gt False: a <(=) b is false, i.e. b <= a (upper bound a on b); True: b ... a the other way
            if not (a.op == "c" and isinstance(a.a[0], (int, float))):
                continue
            k = float(a.a[0])
            up = (a is x and not p) or (a is y and p)      # b <= a
            D = E(b)
            for nm, want in (("abs", E(det) - 1), ("id", E(det) - 1), ("id", E(det))):
                w = F("abs", want) if nm == "abs" else want
                r = A.same(b, w.t)
                if not r:
                    continue
                if p:
                    nan = False
                off = 1 if want is not None and A.same(want.t, E(det).t) else 0
                if nm == "abs" and up:
                    hi, lo = k, -k
                elif nm == "id" and up:
                    hi = k - off
                elif nm == "id":
                    lo = k - off
    if (hi is None) != (lo is None):
        return False
    if hi is not None and lo is not None:
        return hi <= 0.01 and lo >= -0.01 and not nan
    if not o.r.throws:
        return False
    return None


def run(ctx):
    ctx.explanation = "each entry of each rotation built from symbolic inputs equals the entry the definition gives, as a real function"
    ctx.trusted = ["clang's type-checked AST", "sa/absint.py value graphs, sa/alg.py rational normal forms, models of GLM's operators",
                   "GLM's quat_cast inverts mat3_cast", "real arithmetic in place of rounding"]
    W = fx.Wit(ctx, "m01.cpp", text())
    allf = {}
    for f in W.P.defs:
        if f.key.startswith("verif_w::") and f.has_body:
            allf[f.key[len("verif_w::"):]] = f
    W.fns = allf
    MODELS = rot.discover(W.P)
    ctx.sample("re-orthonormalisation: " + ", ".join(sorted(MODELS)))

    def go(ns, name, want, n=9, real=False, alts=(), args=None, **kw):
        o = W.run(ns + "::" + name, models={} if real else MODELS)
        where, q = fx.where_of(W.P, o.fn)
        if not o.ok:
            o.never("rotation", where, "%s never returns a value" % name, ns + "::" + name)
            return
        w = want(o)
        al = [a(o) for a in alts]
        if n == 9:
            got = [x for c in o.mat() for x in c]
            w = [x for c in w for x in c]
            al = [[x for c in a for x in c] for a in al]
        else:
            got = list(o.vec(n))
        for k in range(n):
            tag = "%s::%s[%s]" % (ns, name, "%d][%d" % divmod(k, 3) if n == 9 else k)
            fx.check(ctx, "rotation", tag, got[k], w[k], where, alts=[a[k] for a in al], site=tag, **kw, tol=1e-9)
        ctx.sample("%s::%s" % (ns, name))

    G = rot.gs
    for ns in ("d", "f"):
        m0 = lambda o: G(o.argmat(0))
        raw = lambda o: o.argmat(0)
        # the re-orthonormalisation itself, from general columns
        go(ns, "basis", lambda o: rot.gs_real([o.argvec(0), o.argvec(1), o.argvec(2)]), real=True)
        go(ns, "basis", lambda o: G([o.argvec(0), o.argvec(1), o.argvec(2)]), alts=[lambda o: [o.argvec(0), o.argvec(1), o.argvec(2)]])
        go(ns, "l2p_mat", m0, alts=[raw])
        go(ns, "l2p_mat_p", lambda o: rot.tr(m0(o)), alts=[lambda o: rot.tr(raw(o))])
        go(ns, "p2l_mat", lambda o: G(rot.tr(o.argmat(0))), alts=[lambda o: rot.tr(m0(o)), lambda o: rot.tr(raw(o))])
        go(ns, "identity", lambda o: [V([E(1 if i == j else 0) for j in range(3)]) for i in range(3)])
        for nm, sg in (("l2p_axis", 1), ("p2l_axis", -1)):
            def ax(o, sg=sg):
                u = o.argvec(0).unit()
                r = rot.rodrigues(u, o.arg(1))
                return r if sg > 0 else rot.tr(r)
            # a zero axis has no direction: the identity is returned there
            o = W.run(ns + "::" + nm, models={})
            where, q = fx.where_of(W.P, o.fn)
            if not o.ok:
                o.never("rotation", where, nm + " never returns", ns + "::" + nm)
                continue
            A = [x for c in o.mat() for x in c]
            B = [x for c in ax(o) for x in c]
            L = o.argvec(0).norm()
            for k in range(9):
                tag = "%s::%s[%d][%d]" % ((ns, nm) + divmod(k, 3))
                fx.check(ctx, "rotation", tag, A[k], B[k], where, site=tag,
                         true=[tm.lt(("f",), E(2e-7).t, L.t), tm.lt(("f",), E(3e-16).t, L.t)])
                fx.check(ctx, "rotation", tag + " (zero axis)", A[k], E(1 if k in (0, 4, 8) else 0), where, site=tag + ":zero",
                         true=[tm.lt(("f",), L.t, E(1e-17).t)])
        for nm, inv in (("l2p_quat", False), ("p2l_quat", True), ("l2p_shus", False), ("p2l_shus", True)):
            def qm(o, inv=inv):
                w, x, y, z = [o.arg(i) for i in range(4)]
                m = rot.quat(w, x, y, z)
                return rot.tr(m) if inv else m
            o = W.run(ns + "::" + nm, models={})
            rel = None
            # for a unit quaternion, w^2 = 1 - x^2 - y^2 - z^2
            go(ns, nm, qm, real=True, unit=[[o.arg(i).t for i in range(4)]])
        go(ns, "axis_x", lambda o: m0(o)[0], 3, alts=[lambda o: raw(o)[0]])
        go(ns, "axis_y", lambda o: m0(o)[1], 3, alts=[lambda o: raw(o)[1]])
        go(ns, "axis_z", lambda o: m0(o)[2], 3, alts=[lambda o: raw(o)[2]])
        go(ns, "inv", lambda o: rot.tr(m0(o)), alts=[lambda o: rot.tr(raw(o))])
        pr = lambda o: rot.mul(G(o.argmat(0)), G(o.argmat(1)))
        for nm in ("mul", "muleq"):
            go(ns, nm, lambda o: G(pr(o)), alts=[pr])
        go(ns, "app", lambda o: rot.apply(m0(o), o.argvec(1)), 3, alts=[lambda o: rot.apply(raw(o), o.argvec(1))])

        def qc(o, inv=False):
            fl = [x for c in m0(o) for x in c]
            q = [F("quat_cast." + k, *fl) for k in "xyzw"]
            if inv:
                d = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
                q = [-q[0] / d, -q[1] / d, -q[2] / d, q[3] / d]
            return q

        def qct(o):
            fl = [x for c in rot.tr(m0(o)) for x in c]
            return [F("quat_cast." + k, *fl) for k in "xyzw"]

        def qcc(o):
            q = qc(o)
            return [-q[0], -q[1], -q[2], q[3]]
        for nm in ("oq_l2p", "os_l2p"):
            go(ns, nm, qc, 4)
        for nm in ("oq_p2l", "os_p2l"):
            go(ns, nm, lambda o: qc(o, True), 4, alts=[qcc, qct])
        for k in "xyz":
            go(ns, "l2p_" + k, lambda o, k=k: rot.axis(k, o.arg(0)))
            go(ns, "p2l_" + k, lambda o, k=k: rot.tr(rot.axis(k, o.arg(0))))
        go(ns, "conv", m0, alts=[raw, lambda o: G(m0(o))])
        go(ns, "sh2h", lambda o: [o.arg(1), o.arg(2), o.arg(3), o.arg(0)], 4)
        go(ns, "h2sh", lambda o: [o.arg(1), o.arg(2), o.arg(3), o.arg(0)], 4)
        for q in SEQ + ["default"]:
            if ns == "f" and q not in ("xyz", "zyx", "zxz", "yzx", "default"):
                continue
            s = "xyz" if q == "default" else q

            def ext(o, s=s):
                A = [rot.axis(k, o.arg(i)) for i, k in enumerate(s)]
                return rot.mul(A[2], rot.mul(A[1], A[0]))

            def itr(o, s=s):
                A = [rot.axis(k, o.arg(i)) for i, k in enumerate(s)]
                return rot.mul(A[0], rot.mul(A[1], A[2]))
            go(ns, "ee_" + q, ext, real=True)
            go(ns, "ie_" + q, itr, real=True)
    # an unusable matrix is refused: every way out that keeps a general matrix has excluded a determinant away from 1
    for ns in ("d", "f"):
        for nm in ("l2p_mat", "basis"):
            o = W.run(ns + "::" + nm, models={})
            where, q = fx.where_of(W.P, o.fn)
            A = o.argmat(0) if nm == "l2p_mat" else [o.argvec(i) for i in range(3)]
            det = A[0].dot(A[1].cross(A[2]))
            ok = excluded(o, det)
            if ok is None:
                ctx.notes.append("determinant guard of %s::%s not understood" % (ns, nm))
                continue
            ctx.ob(ok, "determinant-checked", where, "%s accepts matrices whose determinant is far from 1 or NaN (no guard rejects |det - 1| > 0.01)" % nm, ns + "::" + nm + ":det")
