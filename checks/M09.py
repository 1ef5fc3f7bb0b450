"""M09: the state of a node in the solar-system frame is its parent's state composed with its local state.

A symbolic node is put into each mode through its public setters, then asked for its true state. The
parent's state, SPICE and user callbacks are uninterpreted functions of (object, arguments, emission time);
every component of the answer is compared with the composition the definition prescribes.
"""
from sa import absint, fx, rot
from sa import terms as tm
from sa.alg import Alg, E, V, F
from sa.models import vec_result, mat_result

FT = ("f",)
HEAD = '''
#include "huira/huira.hpp"
using namespace huira;
namespace verif_w {
using N = Node<RGB>; using X = Transform<double>; using W3 = Vec3<double>; using M = Mat3<double>; using R = Rotation<double>;
struct PCb final : PositionCallback { void evaluate(const Time&, const Rotation<double>&, const Vec3<double>&) override; };
struct RCb final : RotationCallback { void evaluate(const Time&, const Vec3<double>&, const Vec3<double>&) override; };
struct SCb final : StateCallback { void evaluate(const Time&) override; };
#define ARGS N& n, const Time& e, const Time& t, const X& obs, W3 p, W3 v, M m, W3 w, W3 s
#define RS units::RadiansPerSecond
#define OUT(nm) \\
W3 nm##_pos(ARGS) { nm(n, p, v, m, w, s); return n.get_apparent_transform(ObservationMode::TRUE_STATE, e, t, obs).position; } \\
W3 nm##_vel(ARGS) { nm(n, p, v, m, w, s); return n.get_apparent_transform(ObservationMode::TRUE_STATE, e, t, obs).velocity; } \\
W3 nm##_ang(ARGS) { nm(n, p, v, m, w, s); return n.get_apparent_transform(ObservationMode::TRUE_STATE, e, t, obs).angular_velocity; } \\
W3 nm##_scl(ARGS) { nm(n, p, v, m, w, s); return n.get_apparent_transform(ObservationMode::TRUE_STATE, e, t, obs).scale; } \\
M nm##_rot(ARGS) { nm(n, p, v, m, w, s); return n.get_apparent_transform(ObservationMode::TRUE_STATE, e, t, obs).rotation.local_to_parent_matrix(); }
#define LT(nm) W3 nm##_lt(ARGS) { nm(n, p, v, m, w, s); return n.get_apparent_transform(ObservationMode::GEOMETRIC_STATE, e, t, obs).position; }
#define DEF(nm) inline void nm(N& n, W3 p, W3 v, M m, W3 w, W3 s)
inline void pos_(N& n, W3 p, W3 v) { n.set_position(p); n.set_velocity(v); }
inline void rot_(N& n, M m, W3 w) { n.set_rotation(R::from_local_to_parent(m)); n.set_angular_velocity(RS(w.x), RS(w.y), RS(w.z)); }
DEF(manual) { pos_(n, p, v); rot_(n, m, w); n.set_scale(s); }
DEF(units_) { n.set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z));
  n.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z)); rot_(n, m, w); n.set_scale(s.x, s.y, s.z); }
DEF(body) { pos_(n, p, v); n.set_rotation(R::from_local_to_parent(m)); n.set_body_angular_velocity(RS(w.x), RS(w.y), RS(w.z)); n.set_scale(s); }
DEF(whole) { pos_(n, p, v); rot_(n, m, w); X x; x.position = p; x.velocity = v; x.rotation = R::from_local_to_parent(m); x.angular_velocity = w; x.scale = s; n.set_manual_transform(x); }
DEF(spice_) { n.set_spice("MARS", "IAU_MARS"); n.set_scale(s); }
DEF(spos) { rot_(n, m, w); n.set_spice_origin("MARS"); n.set_scale(s); }
DEF(srot) { pos_(n, p, v); n.set_spice_frame("IAU_MARS"); n.set_scale(s); }
DEF(pcb) { rot_(n, m, w); n.set_custom_position_callback<PCb>(); n.set_scale(s); }
DEF(rcb) { pos_(n, p, v); n.set_custom_rotation_callback<RCb>(); n.set_scale(s); }
DEF(pscb) { n.set_custom_position_callback<PCb>(); n.set_spice_frame("IAU_MARS"); n.set_scale(s); }
DEF(srcb) { n.set_spice_origin("MARS"); n.set_custom_rotation_callback<RCb>(); n.set_scale(s); }
DEF(scb) { n.set_custom_state_callback<SCb>(); n.set_scale(s); }
OUT(manual) OUT(units_) OUT(body) OUT(whole) OUT(spice_) OUT(spos) OUT(srot) OUT(pcb) OUT(rcb) OUT(pscb) OUT(srcb) OUT(scb)
LT(manual) LT(units_) LT(body) LT(whole) LT(spice_) LT(spos) LT(srot) LT(pcb) LT(rcb) LT(pscb) LT(srcb) LT(scb)
W3 light(N& n, const Time& e, const Time& t, const X& obs) { return n.get_apparent_transform(ObservationMode::ABERRATED_STATE, e, t, obs).position; }
W3 geom(N& n, const Time& e, const Time& t, const X& obs) { return n.get_apparent_transform(ObservationMode::GEOMETRIC_STATE, e, t, obs).position; }
W3 truth(N& n, const Time& e, const Time& t, const X& obs) { return n.get_apparent_transform(ObservationMode::TRUE_STATE, e, t, obs).position; }
double et(const Time& t) { return t.et(); }
W3 aberr(W3 u, W3 v) { return compute_aberrated_direction(u, v); }
W3 up_x(W3 p, W3 v, const Time& t) { ZUpYForwardCallback c; c.evaluate(t, p, v); return c.rotation.x_axis(); }
W3 up_y(W3 p, W3 v, const Time& t) { ZUpYForwardCallback c; c.evaluate(t, p, v); return c.rotation.y_axis(); }
W3 up_z(W3 p, W3 v, const Time& t) { ZUpYForwardCallback c; c.evaluate(t, p, v); return c.rotation.z_axis(); }
W3 dn_x(W3 p, W3 v, const Time& t) { ZDownYForwardCallback c; c.evaluate(t, p, v); return c.rotation.x_axis(); }
W3 dn_y(W3 p, W3 v, const Time& t) { ZDownYForwardCallback c; c.evaluate(t, p, v); return c.rotation.y_axis(); }
W3 dn_z(W3 p, W3 v, const Time& t) { ZDownYForwardCallback c; c.evaluate(t, p, v); return c.rotation.z_axis(); }
}
'''
C = 299792458


def et_of(I, st, a, W):
    """The ephemeris time held by a Time object."""
    fs = [fd for r in W.P.rec_by_key.get("huira::Time", ()) for fd in r.get("fields", ())]
    W.ctx.require(len(fs) == 1, "huira::Time holds one number")
    return I.load(st, tm.fld(a, fs[0]["d"]), FT)


class Sym:
    """Fields of a Transform given by uninterpreted functions of `args`."""

    def __init__(self, name, *args):
        f = lambda k: F(name + k, *[E(a) for a in args])
        self.p = V([f(".p%d" % i) for i in range(3)])
        self.v = V([f(".v%d" % i) for i in range(3)])
        self.w = V([f(".w%d" % i) for i in range(3)])
        if name == "parent":
            # a similarity: uniform scale, and a rotation in its Euler angles, so that its orthonormality is algebra
            self.s = V([f(".s")] * 3)
            self.R = rot.mul(rot.axis("z", f(".a")), rot.mul(rot.axis("y", f(".b")), rot.axis("x", f(".c"))))
        else:
            self.s = V([f(".s%d" % i) for i in range(3)])
            self.R = [V([f(".m%d%d" % (i, j)) for j in range(3)]) for i in range(3)]


def put_vec(I, st, a, v):
    I.kill_sub(st, a)
    st.store.pop(a, None)
    for i in range(3):
        st.store[tm.el(a, tm.c(i))] = tm.settype(v[i].t, FT)


def put_mat(I, st, a, M):
    I.kill_sub(st, a)
    st.store.pop(a, None)
    for i in range(3):
        for j in range(3):
            st.store[tm.el(tm.el(a, tm.c(i)), tm.c(j))] = tm.settype(M[i][j].t, FT)


class Env:
    def __init__(self, W):
        self.W = W
        P = self.P = W.P
        self.root = None
        self.asroot = False       # False: the node under test is analysed; "sym": S(epoch, time); "const": S
        self.capture = None       # number of the call on the node under test to analyse with its light-time argument
        self.calls = 0
        self.inside = False
        self.got = None
        self.rotf = [fd["d"] for r in P.rec_by_key.get("huira::Rotation", ()) if "double" in r["q"] for fd in r.get("fields", ())]
        self.xf = {fd["n"]: fd["d"] for r in P.rec_by_key.get("huira::Transform", ()) if "double" in r["q"] for fd in r.get("fields", ())}
        self.log = []

    def flds(self, key):
        return {fd["n"]: fd["d"] for r in self.P.rec_by_key.get(key, ()) for fd in r.get("fields", ())}

    def put_transform(self, I, st, a, S):
        for n, v in (("position", S.p), ("velocity", S.v), ("angular_velocity", S.w), ("scale", S.s)):
            put_vec(I, st, tm.fld(a, self.xf[n]), v)
        put_mat(I, st, tm.fld(tm.fld(a, self.xf["rotation"]), self.rotf[0]), S.R)

    # parent's (or the node's own) state in the solar-system frame
    def ssb(self, I, n, f, this, args, argn, on, st, fr):
        if "huira::Transform<double>" != self.P.ty(f.ret).get("s") or this is None:
            return NotImplemented
        own = this is self.root
        if own and (not self.asroot or self.inside):
            return NotImplemented
        times = []
        if own:
            self.calls += 1
        dt = E(0)
        for p, x in zip(f.params, args):
            if "Time" in self.P.ty(p["t"])["s"]:
                times.append(E(et_of(I, st, x, self.W)))
            elif self.P.ty(p["t"])["k"] in ("float", "f") or "double" in self.P.ty(p["t"])["s"]:
                dt = E(x)
            else:
                return NotImplemented
        if len(times) != 2:
            return NotImplemented
        if own and self.capture and self.got is None and dt.t.op != "c":
            self.inside = True
            try:
                a = I.invoke(f, this, args, n, st, fr)
            finally:
                self.inside = False
            if st.dead or a is None:
                return a
            x = self.xf
            v = lambda b: [E(I.load(st, tm.el(b, tm.c(i)), FT)) for i in range(3)]
            rm = tm.fld(tm.fld(a, x["rotation"]), self.rotf[0])
            self.got = {"pos": v(tm.fld(a, x["position"])), "vel": v(tm.fld(a, x["velocity"])), "ang": v(tm.fld(a, x["angular_velocity"])),
                        "scl": v(tm.fld(a, x["scale"])), "rot": [y for i in range(3) for y in v(tm.el(rm, tm.c(i)))], "dt": dt, "te": times[1] - dt}
            return a
        a = I.tmp(n, fr, "ssb")
        I.kill_sub(st, a)
        st.store.pop(a, None)
        name = "S" if own else "parent"
        S = Sym(name) if own and self.asroot == "const" else Sym(name, times[0], times[1] - dt)
        self.put_transform(I, st, a, S)
        return a

    def spkezr(self, I, n, f, this, args, argn, on, st, fr):
        a = I.tmp(n, fr, "spk")
        I.kill_sub(st, a)
        st.store.pop(a, None)
        t = E(et_of(I, st, args[1], self.W))
        S = Sym("spice", t)
        put_vec(I, st, tm.el(a, "$0"), S.p)
        put_vec(I, st, tm.el(a, "$1"), S.v)
        st.store[tm.el(a, "$2")] = F("spice.lt", t).t
        return a

    def sxform(self, I, n, f, this, args, argn, on, st, fr):
        a = I.tmp(n, fr, "sx")
        I.kill_sub(st, a)
        st.store.pop(a, None)
        t = E(et_of(I, st, args[2], self.W))
        S = Sym("spice", t)
        x = I.tuple_part(f.ret, a, 0)
        y = I.tuple_part(f.ret, a, 1)
        put_mat(I, st, tm.fld(x, self.rotf[0]), S.R)
        put_vec(I, st, y, S.w)
        return a

    def cb(self, kind):
        def m(I, n, f, this, args, argn, on, st, fr):
            t = E(et_of(I, st, args[0], self.W))
            S = Sym(kind, t)
            if kind == "pcb":
                fs = self.flds("huira::PositionCallback")
                put_vec(I, st, tm.fld(this, fs["position"]), S.p)
                put_vec(I, st, tm.fld(this, fs["velocity"]), S.v)
            elif kind == "rcb":
                fs = self.flds("huira::RotationCallback")
                put_mat(I, st, tm.fld(tm.fld(this, fs["rotation"]), self.rotf[0]), S.R)
                put_vec(I, st, tm.fld(this, fs["angular_velocity"]), S.w)
            else:
                fs = self.flds("huira::StateCallback")
                self.put_transform(I, st, tm.fld(this, fs["state"]), S)
            v = lambda b: [E(I.load(st, tm.el(b, tm.c(i)), FT)) for i in range(3)]
            got = None
            if kind == "pcb":
                rm = tm.fld(args[1], self.rotf[0])
                got = [y for i in range(3) for y in v(tm.el(rm, tm.c(i)))] + v(args[2])
            elif kind == "rcb":
                got = v(args[1]) + v(args[2])
            self.log.append((kind, f, t, got))
            return tm.c(0)
        return m


def run(ctx):
    ctx.explanation = "each component of a node's solar-system state equals parent state composed with the local state of its mode"
    ctx.trusted = ["clang's type-checked AST", "sa value graphs and normal forms", "M01, M02 (rotation and transform algebra)", "T02 for the SPICE wrappers"]
    W = fx.Wit(ctx, "m09.cpp", HEAD)
    W.scoped()
    P = W.P
    env = Env(W)
    MODELS = dict(rot.discover(P, raw=True))
    keys = {f.key for f in P.defs if f.clskey == "huira::Node" and P.ty(f.ret).get("s") == "huira::Transform<double>"}
    for k in keys:
        MODELS[k] = (env.ssb, True)
    MODELS["huira::spice::spkezr"] = (env.spkezr, True)
    MODELS["huira::spice::sxform"] = (env.sxform, True)
    for c, k in (("Position", "pcb"), ("Rotation", "rcb"), ("State", "scb")):
        MODELS["huira::%sCallback::evaluate" % c] = (env.cb(k), True)
        MODELS["verif_w::%s::evaluate" % {"pcb": "PCb", "rcb": "RCb", "scb": "SCb"}[k]] = (env.cb(k), True)
    if not keys:
        ctx.notes.append("no state function found")
    et = W.run("et")
    tfd = [fd["d"] for r in P.rec_by_key.get("huira::Time", ()) for fd in r.get("fields", ())]
    ctx.require(len(tfd) == 1, "huira::Time holds one number")

    def time_arg(o, i):
        st = absint.State()
        return E(o.I.load(st, tm.fld(o.paraddr(i), tfd[0]), FT))

    def definition(mode, comp, o, t):
        """The component of the node's state at emission time t, and what the formula assumes."""
        e = time_arg(o, 1)
        p, v, w, m, s = o.argvec(4), o.argvec(5), o.argvec(7), o.argmat(6), o.argvec(8)
        dt = t - e
        par, sp = Sym("parent", e, t), Sym("spice", t)
        lin = lambda q: rot.apply(par.R, V([a * b for a, b in zip(par.s, q)]))
        true = []
        if comp == "scl":
            return s if mode == "spice_" else V([a * b for a, b in zip(par.s, s)]), true
        if mode == "spice_":
            return {"pos": sp.p, "vel": sp.v, "ang": sp.w, "rot": sp.R}[comp], true
        if comp in ("pos", "vel"):
            if mode in ("spos", "srcb"):
                return {"pos": sp.p, "vel": sp.v}[comp], true
            if mode in ("pcb", "pscb", "scb"):
                S = Sym("scb" if mode == "scb" else "pcb", t)
                lp, lv = S.p, S.v
            else:
                lp, lv = p + v * dt, v
            if comp == "pos":
                return par.p + lin(lp), true
            return par.v + lin(lv) + par.w.cross(lin(lp)), true
        if mode in ("srot", "pscb"):
            return (sp.R if comp == "rot" else sp.w), true
        if mode in ("rcb", "srcb", "scb"):
            S = Sym("scb" if mode == "scb" else "rcb", t)
            return (rot.mul(par.R, S.R) if comp == "rot" else par.w + rot.apply(par.R, S.w)), true
        ang = w.norm() * dt
        true = [tm.lt(FT, E(1e-11).t, F("abs", ang).t), tm.lt(FT, E(1e-11).t, w.norm().t)]
        if comp == "rot":
            D = rot.rodrigues(w.unit(), ang)
            return rot.mul(par.R, rot.mul(m, D) if mode == "body" else rot.mul(D, m)), true
        return par.w + rot.apply(par.R, rot.apply(m, w) if mode == "body" else w), true

    def definition_local(mode, comp, o, t):
        """What a callback of the mode is told about the node's own position or rotation."""
        p, v, w, m = o.argvec(4), o.argvec(5), o.argvec(7), o.argmat(6)
        dt = t - time_arg(o, 1)
        if comp == "pos":
            return p + v * dt
        if comp == "vel":
            return v
        if comp == "ang":
            return w
        return rot.mul(rot.rodrigues(w.unit(), w.norm() * dt), m)

    def told(mode, o, t):
        """The callback is evaluated at the time asked for and told the other half of the node's local state."""
        if mode not in ("rcb", "pcb", "scb", "pscb", "srcb"):
            return
        if not env.log:
            ctx.ob(False, "callback", where, "%s: the callback is never evaluated" % mode, mode + ".called")
            return
        w = o.argvec(7)
        true = [tm.lt(FT, E(1e-11).t, F("abs", w.norm() * (t - time_arg(o, 1))).t), tm.lt(FT, E(1e-11).t, w.norm().t)]
        for kind, f, et, got in env.log[:1]:
            fx.check(ctx, "callback", mode + " evaluation time", et, t, where, site=mode + ".time", tol=1e-9)
            if got is None or mode in ("pscb", "srcb"):
                continue
            want = list(definition_local(mode, "pos", o, t)) + list(definition_local(mode, "vel", o, t)) if kind == "rcb" else \
                [x for c in definition_local(mode, "rot", o, t) for x in c] + list(definition_local(mode, "ang", o, t))
            for i, g in enumerate(got):
                fx.check(ctx, "callback", "%s argument %d" % (mode, i), g, want[i], where, site="%s.arg[%d]" % (mode, i), tol=1e-9, true=true,
                         ortho=[[x for c in o.argmat(6) for x in c]])

    def go(mode, comp):
        nm = mode + "_" + comp
        fn = W.fns.get(nm)
        env.asroot, env.capture, env.root = False, None, fx.par_addr(fn, 0)
        env.log = []
        o = W.run(nm, models=MODELS)
        if not o.ok:
            o.never("state", where, "%s: no state is ever returned" % nm, nm)
            return
        want, true = definition(mode, comp, o, time_arg(o, 2))
        got = [x for c in o.mat() for x in c] if comp == "rot" else list(o.vec())
        want = [x for c in want for x in c] if comp == "rot" else list(want)
        for i, g in enumerate(got):
            tag = "%s[%d]" % (nm, i)
            fx.check(ctx, "state", tag, g, want[i], where, site=tag, true=true, tol=1e-9, ortho=[[x for c in o.argmat(6) for x in c]])
        if comp == "pos":
            told(mode, o, time_arg(o, 2))
        ctx.sample(nm)

    def delayed(mode):
        """The state asked for a light-time earlier is the state at the time of emission."""
        nm = mode + "_lt"
        fn = W.fns.get(nm)
        env.asroot, env.capture, env.calls, env.got, env.root = "sym", True, 0, None, fx.par_addr(fn, 0)
        o = W.run(nm, models=MODELS)
        env.capture = None
        if env.got is None:
            ctx.ob(o.stopped or not o.ok or env.calls < 2, "light-time", where, "%s: the iterated state ignores the light time" % nm, nm)
            return
        D = F("light_time")
        dt = env.got["dt"]
        t = time_arg(o, 2) - D
        for comp in ("pos", "vel", "ang", "scl", "rot"):
            want, true = definition(mode, comp, o, t)
            want = [x for c in want for x in c] if comp == "rot" else list(want)
            for i, g in enumerate(env.got[comp]):
                tag = "%s.%s[%d]" % (nm, comp, i)
                fx.check(ctx, "light-time", tag, g, want[i], where, site=tag, true=true, subst={dt.t: D.t}, tol=1e-9, ortho=[[x for c in o.argmat(6) for x in c]])
        ctx.sample(nm)

    f0 = next((f for f in P.defs if f.clskey == "huira::Node" and f.n == "get_apparent_transform"), None)
    ctx.require(f0 is not None, "Node::get_apparent_transform")
    where = f0.where
    for mode in ("manual", "units_", "body", "whole", "spice_", "spos", "srot", "pcb", "rcb", "pscb", "srcb", "scb"):
        for comp in ("pos", "vel", "rot", "ang", "scl"):
            go(mode, comp)
        delayed(mode)

    # light time: the state returned is the state one light time before, iterated
    def obs(o, nm):
        st = absint.State()
        b = tm.fld(o.paraddr(3), env.xf[nm])
        return V([E(o.I.load(st, tm.el(b, tm.c(i)), FT)) for i in range(3)])

    def leaves(t):
        if t.op == "ite":
            return leaves(t.a[1]) + leaves(t.a[2])
        return [t]

    for nm in ("truth", "geom"):
        env.asroot, env.calls, env.root = "sym", 0, fx.par_addr(W.fns[nm], 0)
        o = W.run(nm, models=MODELS)
        e, t = time_arg(o, 1), time_arg(o, 2)
        S = [Sym("S", e, t)]
        for k in range(4):
            S.append(Sym("S", e, t - (obs(o, "position") - S[-1].p).norm() / C))
        if nm == "truth":
            for i, g in enumerate(o.vec()):
                fx.check(ctx, "light-time", "true state[%d]" % i, g, S[0].p[i], where, site="truth[%d]" % i, tol=1e-9)
            continue
        for i, g in enumerate(o.vec()):
            L = []
            for x in leaves(g.t):
                if x not in L:
                    L.append(x)
            hit = set()
            other = []
            for x in L:
                k = next((k for k in range(5) if Alg().same(x, S[k].p[i].t)), None)
                if k is None:
                    other.append(x)
                else:
                    hit.add(k)
            ok = 0 not in hit and (3 in hit or not hit)
            if not hit:
                ctx.notes.append("light-time iteration not recognised")
                continue
            ctx.ob(ok, "light-time", where, "the geometric state is not the state iterated at t - |observer - state|/c (iterates returned: %s)" % sorted(hit), "geom[%d]" % i)
    # aberration: the geometric position, turned to the aberrated direction at the same distance
    AB = dict(MODELS)

    def ab(I, n, f, this, args, argn, on, st, fr):
        xs = [E(I.load(st, tm.el(a, tm.c(i)), FT)) for a in args[:2] for i in range(3)]
        return vec_result(I, n, st, fr, [tm.settype(F("ab%d" % i, *xs).t, FT) for i in range(3)])
    AB["huira::compute_aberrated_direction"] = (ab, True)
    env.asroot, env.root = "const", fx.par_addr(W.fns["light"], 0)
    o = W.run("light", models=AB)
    S = Sym("S")
    ob, ov = obs(o, "position"), obs(o, "velocity")
    rel = S.p - ob
    u = rel.unit()
    for i, g in enumerate(o.vec()):
        want = ob[i] + F("ab%d" % i, *(list(u) + list(ov))) * rel.norm()
        fx.check(ctx, "aberration", "apparent position[%d]" % i, g, want, where, site="aberrated[%d]" % i, true=[tm.lt(FT, E(1e-7).t, rel.norm().t)], tol=1e-9)
    o = W.run("aberr")
    fa = next((f for f in P.defs if f.key == "huira::compute_aberrated_direction"), f0)
    u, b = o.argvec(0), o.argvec(1) / C
    g = 1 / fx.sqrt(1 - b.dot(b))
    for i, x in enumerate(o.vec()):
        want = (u[i] / g + b[i] + g / (1 + g) * u.dot(b) * b[i]) / (1 + u.dot(b))
        fx.check(ctx, "aberration", "aberrated direction[%d]" % i, x, want, fa.where, site="aberr[%d]" % i, positive=[(1 - b.dot(b)).t], tol=1e-9)
    # nadir pointing
    fn = next((f for f in P.defs if f.n == "evaluate" and f.clskey == "huira::ZUpYForwardCallback"), f0)
    for nm, sg in (("up", 1), ("dn", -1)):
        for k in "xyz":
            o = W.run("%s_%s" % (nm, k), models=MODELS)
            z = o.argvec(0).unit() * sg
            y = o.argvec(1).unit()
            x = y.cross(z).unit()
            want = {"x": x, "y": z.cross(x), "z": z}[k]
            alt = {"x": x, "y": z.cross(x).unit(), "z": z}[k]
            for i, g in enumerate(o.vec()):
                fx.check(ctx, "nadir", "%s_%s[%d]" % (nm, k, i), g, want[i], fn.where, alts=[alt[i]], site="%s_%s[%d]" % (nm, k, i), tol=1e-9)
