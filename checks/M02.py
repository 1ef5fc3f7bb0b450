"""M02: Transform composes, inverts and applies as rigid-body kinematics prescribes.

Each public operation of Transform is run on symbolic transforms (rotations enter through the symbolic
re-orthonormalised matrices of M01) and every component of its result is compared with the definition.
"""
from sa import fx, rot
from sa import terms as tm
from sa.alg import E, V, F

BODY = '''
#include "huira/core/transform.hpp"
#include "huira/core/physics.hpp"
using namespace huira;
namespace verif_w {
%s
}
'''
NS = '''
namespace %(ns)s {
using S = %(T)s; using U = %(U)s; using X = Transform<S>; using M = Mat3<S>; using W3 = Vec3<S>; using R = Rotation<S>;
X mk(W3 p, M m, W3 s, W3 v, W3 w) { X x; x.position = p; x.rotation = R::from_local_to_parent(m); x.scale = s; x.velocity = v; x.angular_velocity = w; return x; }
#define ARG W3 p, M m, W3 s, W3 v, W3 w
#define A mk(p, m, s, v, w)
W3 point(ARG, W3 q) { return A.apply_to_point(q); }
W3 direction(ARG, W3 q) { return A.apply_to_direction(q); }
W3 velocity(ARG, W3 q) { return A.apply_to_velocity(q); }
W3 angular(ARG, W3 q) { return A.apply_to_angular_velocity(q); }
W3 vpoint(ARG, W3 q) { return A.velocity_of_point(q); }
W3 vlocal(ARG, W3 q) { return A.velocity_of_local_point(q); }
Mat4<S> matrix(ARG) { return A.to_matrix(); }
#define INV(f) X i = mk(p, m, W3(s), v, w).inverse(); return i.f
W3 ipos(W3 p, M m, S s, W3 v, W3 w) { INV(position); }
M irot(W3 p, M m, S s, W3 v, W3 w) { INV(rotation.local_to_parent_matrix()); }
W3 iscale(W3 p, M m, S s, W3 v, W3 w) { INV(scale); }
W3 ivel(W3 p, M m, S s, W3 v, W3 w) { INV(velocity); }
W3 iang(W3 p, M m, S s, W3 v, W3 w) { INV(angular_velocity); }
#define MUL(f) X r = mk(p, m, s, v, w) * mk(p2, m2, s2, v2, w2); return r.f
#define ARG2 ARG, W3 p2, M m2, W3 s2, W3 v2, W3 w2
W3 mpos(ARG2) { MUL(position); }
M mrot(ARG2) { MUL(rotation.local_to_parent_matrix()); }
W3 mscale(ARG2) { MUL(scale); }
W3 mvel(ARG2) { MUL(velocity); }
W3 mang(ARG2) { MUL(angular_velocity); }
#define CONV(f) Transform<U> r = static_cast<Transform<U>>(A); return r.f
Vec3<U> cpos(ARG) { CONV(position); }
Mat3<U> crot(ARG) { CONV(rotation.local_to_parent_matrix()); }
Vec3<U> cscale(ARG) { CONV(scale); }
Vec3<U> cvel(ARG) { CONV(velocity); }
Vec3<U> cang(ARG) { CONV(angular_velocity); }
#define EMB RTCQuaternionDecomposition d = A.to_embree()
Vec3<float> etr(ARG) { EMB; return {d.translation_x, d.translation_y, d.translation_z}; }
Vec3<float> esc(ARG) { EMB; return {d.scale_x, d.scale_y, d.scale_z}; }
Vec3<float> esk(ARG) { EMB; return {d.skew_xy, d.skew_xz, d.skew_yz}; }
Vec3<float> esh(ARG) { EMB; return {d.shift_x, d.shift_y, d.shift_z}; }
Vec4<float> equ(ARG) { EMB; return {d.quaternion_i, d.quaternion_j, d.quaternion_k, d.quaternion_r}; }
W3 dpos() { return X{}.position; } W3 dscale() { return X{}.scale; } W3 dvel() { return X{}.velocity; } W3 dang() { return X{}.angular_velocity; }
M drot() { return X{}.rotation.local_to_parent_matrix(); }
#undef ARG
#undef A
#undef INV
#undef MUL
#undef ARG2
#undef CONV
#undef EMB
}
'''


class X:
    """A symbolic transform: the parameters number i.. of a witness."""

    def __init__(self, o, i, uniform=False):
        self.p = o.argvec(i)
        self.R = rot.gs(o.argmat(i + 1))
        if uniform:
            s = o.arg(i + 2)
            self.s = V([s, s, s])
        else:
            self.s = o.argvec(i + 2)
        self.v = o.argvec(i + 3)
        self.w = o.argvec(i + 4)

    def lin(self, q):
        return rot.apply(self.R, V([a * b for a, b in zip(self.s, q)]))


def unlin(x, q):
    """Rotation transposed and scale divided out (uniform scale)."""
    r = rot.apply(rot.tr(x.R), q)
    return V([a / b for a, b in zip(r, x.s)])


def run(ctx):
    ctx.explanation = "each component of each Transform operation equals its definition, as a real function of the inputs"
    ctx.trusted = ["clang's type-checked AST", "sa/absint.py value graphs, sa/alg.py normal forms, models of GLM's operators", "M01 for rotations"]
    W = fx.Wit(ctx, "m02.cpp", BODY % "".join(NS % {"ns": n, "T": a, "U": b} for n, a, b in (("d", "double", "float"), ("f", "float", "double"))))
    W.scoped()
    MODELS = rot.discover(W.P)

    def go(name, want, n=3, alts=(), arg=None, **kw):
        for ns in ("d", "f"):
            nm = ns + "::" + name
            o = W.run(nm, models=MODELS)
            where, q = fx.where_of(W.P, o.fn, skip=("Rotation::",), last=True)
            if not o.ok:
                o.never("transform", where, "%s never returns a value" % nm, nm)
                continue
            if n == 9 or n == 16:
                k = 3 if n == 9 else 4
                got = [x for c in o.mat(k, k) for x in c]
                flat = lambda M: [x for c in M for x in c]
            else:
                got = list(o.vec(n))
                flat = list
            w = flat(want(o))
            al = [flat(a(o)) for a in alts]
            for i in range(n):
                tag = "%s[%s]" % (nm, i)
                fx.check(ctx, "transform", tag, got[i], w[i], where, alts=[a[i] for a in al], site=tag, **kw, tol=1e-9)
            ctx.sample(nm)

    a = lambda o: X(o, 0)
    u = lambda o: X(o, 0, True)
    b = lambda o: X(o, 5)
    q = lambda o: o.argvec(5)
    go("point", lambda o: a(o).lin(q(o)) + a(o).p)
    go("direction", lambda o: a(o).lin(q(o)))
    go("velocity", lambda o: a(o).lin(q(o)) + a(o).v)
    go("angular", lambda o: rot.apply(a(o).R, q(o)) + a(o).w)
    go("vpoint", lambda o: a(o).v + a(o).w.cross(q(o) - a(o).p))
    go("vlocal", lambda o: a(o).v + a(o).w.cross(a(o).lin(q(o))))

    def m4(o):
        x = a(o)
        z = E(0)
        return [V([x.R[i][0] * x.s[i], x.R[i][1] * x.s[i], x.R[i][2] * x.s[i], z]) for i in range(3)] + [V([x.p[0], x.p[1], x.p[2], E(1)])]
    go("matrix", m4, 16)
    # inverse: composed with the transform it gives the resting identity
    go("ipos", lambda o: unlin(u(o), -u(o).p))
    go("irot", lambda o: rot.tr(u(o).R), 9)
    go("iscale", lambda o: V([1 / s for s in u(o).s]))
    go("ivel", lambda o: unlin(u(o), u(o).w.cross(u(o).p) - u(o).v))
    go("iang", lambda o: rot.apply(rot.tr(u(o).R), -u(o).w))
    # composition
    go("mpos", lambda o: a(o).p + a(o).lin(b(o).p))
    pr = lambda o: rot.mul(a(o).R, b(o).R)
    go("mrot", lambda o: rot.gs(pr(o)), 9, alts=[pr])
    go("mscale", lambda o: V([x * y for x, y in zip(a(o).s, b(o).s)]))
    go("mvel", lambda o: a(o).v + a(o).lin(b(o).v) + a(o).w.cross(a(o).lin(b(o).p)))
    go("mang", lambda o: a(o).w + rot.apply(a(o).R, b(o).w))
    # precision conversion and Embree's decomposition keep every component
    go("cpos", lambda o: a(o).p)
    go("crot", lambda o: a(o).R, 9, alts=[lambda o: rot.gs(a(o).R)])
    go("cscale", lambda o: a(o).s)
    go("cvel", lambda o: a(o).v)
    go("cang", lambda o: a(o).w)
    go("etr", lambda o: a(o).p)
    go("esc", lambda o: a(o).s)
    zero = lambda o: V([E(0)] * 3)
    go("esk", zero)
    go("esh", zero)
    go("equ", lambda o: [F("quat_cast." + k, *[x for c in a(o).R for x in c]) for k in "xyzw"], 4)
    go("dpos", zero)
    go("dvel", zero)
    go("dang", zero)
    go("dscale", lambda o: V([E(1)] * 3))
    go("drot", lambda o: [V([E(1 if i == j else 0) for j in range(3)]) for i in range(3)], 9)
