"""M08: frame buffer channels are independent, and the sensor readout follows its detector model.

Value graphs of witnesses that obtain a frame buffer from a camera, switch channels on and off, clear them, and read a
sensor out with symbolic powers and parameters; std::normal_distribution is modelled as mean + sigma * (a fresh
unknown per draw), so which draws share a value is visible.
"""
import itertools
import math
import random
from sa import absint
from sa import concrete as cc
from sa import fx
from sa import terms as tm

INF = float("inf")
CH = ["depth", "albedo", "geometry_ids", "camera_normals", "world_normals", "received_direct_power", "received_indirect_power", "received_power", "sensor_response"]
VEC = {"albedo": "RGB", "received_direct_power": "RGB", "received_indirect_power": "RGB", "received_power": "RGB", "sensor_response": "RGB", "camera_normals": "Vec3<float>", "world_normals": "Vec3<float>"}
N = 64
CAM = "CameraModel<RGB> cam; cam.set_intrinsics(3.0f, 2.0f, 1.5f, 1.25f, Resolution{3, 2}, units::Meter(0.05)); auto fb = cam.make_frame_buffer(); "


def val(i):
    """The value stored in channel i by the witnesses (distinct per channel and component)."""
    return [(i + 1) + 0.125 * j for j in range(3)] if CH[i] in VEC else [float(i + 1)]


def setv(i, x, y):
    n = CH[i]
    if n in VEC:
        a, b, c = val(i)
        return "fb.%s()(%d, %d) = %s{%ff, %ff, %ff}; " % (n, x, y, VEC[n], a, b, c)
    return "fb.%s()(%d, %d) = %d; " % (n, x, y, i + 1)


def readall(base):
    return "".join("o[%d] = fb.has_%s(); o[%d] = fb.%s().width(); o[%d] = fb.%s().height(); " % (base + 3 * i, n, base + 3 * i + 1, n, base + 3 * i + 2, n) for i, n in enumerate(CH))


def getv(i, base, x, y):
    n = CH[i]
    if n in VEC:
        return "".join("o[%d] = fb.%s()(%d, %d)[%d]; " % (base + j, n, x, y, j) for j in range(3))
    return "o[%d] = %sfb.%s()(%d, %d); " % (base, "static_cast<double>(" if 0 else "", n, x, y)


ENV = {"full": 20000.0, "rn": 10.0, "dark": 1.0, "bias": 10.0, "gain": 1.22}


def text():
    t = ['#include "huira/huira.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, %d>;" % N]

    def w(name, params, body):
        t.append("A %s(%s) { A o{}; %s return o; }" % (name, params.rstrip(", "), body))
    enall = "".join("fb.enable_%s(); " % n for n in CH)
    w("fresh", "int d", CAM + readall(0) + "o[60] = fb.width(); o[61] = fb.height(); o[62] = fb.resolution().x; o[63] = fb.resolution().y;")
    for i, n in enumerate(CH):
        w("on_" + n, "int d", CAM + "fb.enable_%s(); " % n + readall(0) + getv(i, 27, 0, 0) + getv(i, 30, 2, 1))
        w("off_" + n, "int d", CAM + enall + "".join(setv(j, 2, 1) for j in range(9)) + "fb.enable_%s(false); " % n + readall(0) + "".join(getv(j, 27 + 3 * j, 2, 1) for j in range(9) if j != i))
        # enabling again keeps what is there; the other channels stay as they are
        w("again_" + n, "int d", CAM + enall + "".join(setv(j, 1, 1) for j in range(9)) + "fb.enable_%s(); fb.enable_%s(true); " % (n, n) + readall(0) + "".join(getv(j, 27 + 3 * j, 1, 1) for j in range(9)))
        # each accessor reaches its own image
        w("own_" + n, "int d", CAM + enall + setv(i, 1, 0) + "".join(getv(j, 27 + 3 * j, 1, 0) for j in range(9)))
        w("clr_" + n, "int d", CAM + "fb.enable_%s(); " % n + setv(i, 0, 1) + setv(i, 2, 0) + "fb.clear(); " + readall(0) + getv(i, 27, 0, 1) + getv(i, 30, 2, 0))
    w("clear", "int d", CAM + enall + "".join(setv(j, 2, 1) for j in range(9)) + "fb.clear(); " + readall(0) + "".join(getv(j, 27 + 3 * j, 2, 1) for j in range(9)))
    # readout
    cfg = ("SimpleSensorConfig<%s> cf; cf.quantum_efficiency = q; cf.full_well_capacity = full; cf.simulate_noise = noise; cf.read_noise = rn; cf.dark_current = dark; cf.bias_level_dn = bias; "
           "cf.gain = gain; cf.bit_depth = %s; SimpleSensor<%s> s(cf); ")
    P = "float p0, float p1, float p2, float p3, float p4, float p5, float q0, float q1, float q2, bool noise, float full, float rn, float dark, float bias, float gain, double dt"
    rgb = ("CameraModel<RGB> cam; cam.set_intrinsics(3.0f, 2.0f, 1.5f, 1.25f, Resolution{2, 1}, units::Meter(0.05)); auto fb = cam.make_frame_buffer(); fb.enable_sensor_response(); fb.received_power()(0, 0) = RGB{p0, p1, p2}; fb.received_power()(1, 0) = RGB{p3, p4, p5}; RGB q{q0, q1, q2}; ")
    for b in (8, 12):
        w("read_rgb%d" % b, P, rgb + cfg % ("RGB", b, "RGB") + "s.readout(fb, units::Second(dt)); for (std::size_t i = 0; i < 3; ++i) { o[i] = fb.sensor_response()(0, 0)[i]; o[3 + i] = fb.sensor_response()(1, 0)[i]; o[6 + i] = fb.received_power()(0, 0)[i]; o[9 + i] = fb.received_power()(1, 0)[i]; } o[12] = fb.sensor_response().sensor_bit_depth(); o[13] = fb.sensor_response().width();")
    w("read_bits", P + ", int bits", rgb + cfg % ("RGB", "bits", "RGB") + "s.readout(fb, units::Second(dt)); o[0] = fb.sensor_response()(1, 0)[2]; o[1] = fb.sensor_response().sensor_bit_depth();")
    w("read_spec", P, "using S = SpectralBins<2, 500, 600, 700>; CameraModel<S> cam; cam.set_intrinsics(3.0f, 2.0f, 1.5f, 1.25f, Resolution{1, 2}, units::Meter(0.05)); auto fb = cam.make_frame_buffer(); fb.enable_sensor_response(); fb.received_power()(0, 0) = S{p0, p1}; fb.received_power()(0, 1) = S{p2, p3}; S q{q0, q1}; " + cfg % ("S", "10", "S") +
      "s.readout(fb, units::Second(dt)); o[0] = fb.sensor_response()(0, 0); o[1] = fb.sensor_response()(0, 1); o[2] = fb.sensor_response().sensor_bit_depth(); o[3] = S::photon_energies()[0]; o[4] = S::photon_energies()[1];")
    w("energies", "int d", "for (std::size_t i = 0; i < 3; ++i) { o[i] = RGB::photon_energies()[i]; } for (std::size_t i = 0; i < 8; ++i) { o[3 + i] = Visible8::photon_energies()[i]; }")
    w("read_cam", P, rgb + "SimpleSensorConfig<RGB> cf; cf.resolution = Resolution{2, 1}; cf.quantum_efficiency = q; cf.full_well_capacity = full; cf.simulate_noise = noise; cf.read_noise = rn; cf.dark_current = dark; cf.bias_level_dn = bias; cf.gain = gain; cam.set_sensor<SimpleSensor<RGB>>(cf); cam.readout(fb, units::Second(dt)); o[0] = fb.sensor_response()(1, 0)[1]; o[1] = cam.resolution().x; o[2] = cam.resolution().y;")
    # sensor parameters
    S = "SimpleSensorConfig<RGB> cf; SimpleSensor<RGB> s(cf); "
    w("gain", "float db, float u, float g", S + "s.set_unity_db(u); s.set_gain_db(db); o[0] = s.gain_adu(); o[1] = s.gain_db(); s.set_gain_adu(g); o[2] = s.gain_db(); o[3] = s.gain_adu(); o[4] = s.unity_db(); cf.unity_db = u; cf.set_gain_db(db); o[5] = cf.gain; cf.gain = g; o[6] = cf.gain_db(); SimpleSensorConfig<RGB> z; z.set_gain_db(db); o[7] = z.gain;")
    w("pitch", "double px, double py, double w, double h, int nx, int ny", S + "try { s.set_resolution(Resolution{nx, ny}); s.set_pixel_pitch(units::Micrometer(px), units::Micrometer(py)); o[0] = s.pixel_pitch().x; o[1] = s.pixel_pitch().y; o[2] = s.sensor_size().x; o[3] = s.sensor_size().y; s.set_sensor_size(units::Millimeter(w), units::Millimeter(h)); o[4] = s.pixel_pitch().x; o[5] = s.pixel_pitch().y; o[6] = s.sensor_size().x; o[7] = s.sensor_size().y; o[8] = s.resolution().x; o[9] = s.resolution().y; } catch (...) { o[10] = 1; }")
    w("params", "float a, float b, float c, float d, float e, float g, bool n, int bits, double rot", S + "try { s.set_full_well_capacity(a); s.set_read_noise(b); s.set_dark_current(c); s.set_bias_level_dn(d); s.set_gain_adu(e); s.set_unity_db(g); s.set_simulate_noise(n); s.set_bit_depth(bits); s.set_rotation(units::Radian(rot)); s.set_quantum_efficiency(RGB{0.1f, 0.2f, 0.3f}); } catch (...) { o[13] = 1; } "
      "o[0] = s.full_well_capacity(); o[1] = s.read_noise(); o[2] = s.dark_current(); o[3] = s.bias_level_dn(); o[4] = s.gain_adu(); o[5] = s.unity_db(); o[6] = s.simulate_noise(); o[7] = s.bit_depth(); o[8] = s.rotation().to_si(); for (std::size_t i = 0; i < 3; ++i) { o[9 + i] = s.quantum_efficiency()[i]; }")
    t.append("}")
    return "\n".join(t)


# ---------------------------------------------------------------- normal draws
def nd_ctor(I, n, a, f, args, st, fr):
    from sa.absint import FT
    I.kill_sub(st, a)
    st.store[a] = I.fresh(n, fr, "nd")
    xs = [x for x in n.c if x is not None]
    v = []
    for x, e in zip(args, xs):
        v.append(I.load(st, x, FT) if I.kind(f.params[len(v)]["t"]) == "ref" and x.op in ("loc", "fld", "el") else x)
    v += [tm.c(0.0), tm.c(1.0)][len(v):]
    st.store[tm.el(a, "$mean")], st.store[tm.el(a, "$sd")] = v[0], v[1]


def draws():
    k = [0]

    def call(I, n, f, this, args, argn, on, st, fr):
        if this is None or tm.el(this, "$sd") not in st.store:
            return NotImplemented
        z = tm.call("verif_gauss", tm.c(k[0]))
        k[0] += 1
        F = ("f", 32)
        return tm.add(F, st.store[tm.el(this, "$mean")], tm.mul(F, st.store[tm.el(this, "$sd")], z))
    return {"std::normal_distribution::operator()": (call, False)}


Z = {}
cc.FUN["verif_gauss"] = lambda k: Z.get(int(k), 0.0)
H, C = 6.62607015e-34, 299792458.0


def run(ctx):
    absint.CTORS["std::normal_distribution"] = nd_ctor
    W = fx.Wit(ctx, "w_m08.cpp", text())
    W.scoped()
    P = W.P
    # what a camera derives from its intrinsics is not read here (M04 covers it)
    NOP = (lambda I, n, f, this, args, argn, on, st, fr: tm.c(0), True)
    skip = {k: NOP for k in {f.key for f in P.fns.values() if f.clskey == "huira::CameraModel" and f.n in ("compute_frustum_", "compute_pixel_solid_angles_", "compute_distortion_field_")} | {"huira::Aperture::build_defocus_kernel"}}

    def go(name, **k):
        o = W.run(name, unroll=9, budget=3000000, models=dict(draws(), **skip), **k)
        wh = fx.where_of(P, o.fn, last=True)[0]
        if not o.ok:
            ctx.count("undetermined")
            ctx.notes.append("%s: no result" % name)
            return None, wh, {}
        return o, wh, {p["n"]: o.arg(i).t for i, p in enumerate(o.fn.params)}

    def out(o, i):
        return o.load(tm.el(o.r.val, tm.c(i)))

    def pts(rule, what, o, i, names, vs, want, wh, rel=1e-5, atol=1e-6, **k):
        es = [({names[n]: x for n, x in v.items() if n in names}, v) for v in vs]
        back = {id(e): v for e, v in es}
        fx.points(ctx, rule, what, out(o, i), [e for e, _ in es], lambda e: want(back[id(e)]), wh, rel=rel, atol=atol, site=what,
                  say=lambda e: ", ".join("%s=%.6g" % (n, x) for n, x in back[id(e)].items()), **k)

    def const(rule, what, o, i, w, wh):
        fx.points(ctx, rule, what, out(o, i), [{}], lambda e: float(w), wh, rel=1e-6, atol=1e-9, site=what, say=lambda e: "")

    # ---------------------------------------------------------------- channels
    init = {n: (INF if n == "depth" else 0.0) for n in CH}

    def flags(rule, o, wh, on, who):
        for j, m in enumerate(CH):
            for d, lab in enumerate(("present", "width", "height")):
                const(rule, "%s: %s %s" % (who, m, lab), o, 3 * j + d, (1, 3, 2)[d] if m in on else 0, wh)
    o, wh, nm = go("fresh")
    if o:
        flags("channels", o, wh, (), "a new frame buffer")
        for i, v in ((60, 3), (61, 2), (62, 3), (63, 2)):
            const("channels", "frame buffer size %d" % i, o, i, v, wh)
    for i, n in enumerate(CH):
        nc = 3 if n in VEC else 1
        o, wh, nm = go("on_" + n)
        if o:
            on = [n] + (["received_power"] if n == "sensor_response" else [])
            flags("channels", o, wh, on, "enable " + n)
            for b in (27, 30):
                for j in range(nc):
                    const("initial values", "enabled %s, pixel %s component %d" % (n, "first" if b == 27 else "last", j), o, b + j, init[n], wh)
        o, wh, nm = go("off_" + n)
        if o:
            flags("channels", o, wh, [m for m in CH if m != n], "disable " + n)
            for j, m in enumerate(CH):
                if j != i:
                    for k, v in enumerate(val(j)):
                        const("channels", "disable %s keeps %s[%d]" % (n, m, k), o, 27 + 3 * j + k, v, wh)
        o, wh, nm = go("again_" + n)
        if o:
            flags("channels", o, wh, CH, "enable %s again" % n)
            for j, m in enumerate(CH):
                for k, v in enumerate(val(j)):
                    const("channels", "enabling %s again keeps %s[%d]" % (n, m, k), o, 27 + 3 * j + k, v, wh)
        o, wh, nm = go("own_" + n)
        if o:
            for j, m in enumerate(CH):
                for k in range(len(val(j))):
                    const("channels", "writing %s, reading %s[%d]" % (n, m, k), o, 27 + 3 * j + k, val(j)[k] if j == i else init[m], wh)
        o, wh, nm = go("clr_" + n)
        if o:
            flags("channels", o, wh, [n] + (["received_power"] if n == "sensor_response" else []), "clear with only " + n)
            for b in (27, 30):
                for j in range(nc):
                    const("initial values", "cleared %s, pixel %d component %d" % (n, b, j), o, b + j, init[n], wh)
    o, wh, nm = go("clear")
    if o:
        flags("channels", o, wh, CH, "clear")
        for j, m in enumerate(CH):
            for k in range(len(val(j))):
                const("initial values", "clear resets %s[%d]" % (m, k), o, 27 + 3 * j + k, init[m], wh)

    # ---------------------------------------------------------------- readout
    en = [H * C / (w * 1e-9) for w in ()]
    o, wh, nm = go("energies")
    E3 = None
    if o:
        E3 = [cc.concrete(out(o, i).t if hasattr(out(o, i), "t") else out(o, i), {}) for i in range(3)]
        ctx.require(all(isinstance(x, float) and 1e-19 < x < 1e-18 for x in E3), "photon energies")

    def zs(t):
        """The draws a term depends on."""
        seen, st, r = set(), [t.t if hasattr(t, "t") else t], set()
        while st:
            x = st.pop()
            if not isinstance(x, tm.T) or x in seen:
                continue
            seen.add(x)
            if x.op == "call" and x.a[0] == "verif_gauss":
                r.add(int(x.a[1].a[0]))
            st.extend(y for y in x.a if isinstance(y, tm.T))
            for y in x.a:
                if isinstance(y, tuple):
                    st.extend(z for z in y if isinstance(z, tm.T))
        return r

    rnd = random.Random(5)

    def envs(extra=()):
        base = {"p0": 4e-13, "p1": 2.5e-13, "p2": 1e-13, "p3": 9e-13, "p4": 1.7e-12, "p5": 6e-13, "q0": 0.31, "q1": 0.52, "q2": 0.43, "noise": 0,
                "full": 20000.0, "rn": 10.0, "dark": 25.0, "bias": 10.0, "gain": 6.22, "dt": 1e-3}
        L = [dict(base)]
        for k, v in (("full", 300.0), ("gain", 0.4), ("dt", 2e-2), ("dt", 1e-7), ("dark", 5e6), ("bias", 400.0), ("rn", 55.0), ("q2", 1.0), ("full", 5e6), ("p4", 0.0), ("p5", 0.0)):
            L.append(dict(base, **{k: v}))
        L.append(dict(base, full=5e6, dt=0.5))
        L += [dict(e, noise=1) for e in L]
        return L

    def detector(powers, qes, ens, v, bits, z1, z2, swap=False):
        s = sum(p * v["dt"] / e * q for p, q, e in zip(powers, qes, ens))
        bias = 0.0
        if v["noise"]:
            s += v["dark"] * v["dt"]
            s += math.sqrt(s) * z1 + v["rn"] * z2
            bias = v["bias"]
        s = min(s, v["full"])
        mx = 2.0 ** bits - 1
        return min(max(s / v["gain"] + bias, 0.0), mx) / mx

    ro = [f for f in P.fns.values() if f.clskey == "huira::SimpleSensor" and f.n == "readout" and f.has_body]

    def read(name, outs, bits, ens):
        """outs: index -> (power names, qe names, energies)."""
        o, wh, nm = go(name)
        wh = "%s:%s" % (ro[0].file, ro[0].line) if ro else wh
        if not o:
            return
        used = {}
        for i, (ps, qs, es) in outs.items():
            t = out(o, i)
            z = sorted(zs(t))
            what = "%s, %s" % (name, i)
            op = fx.opaque(t)
            if op is not None:
                ctx.count("undetermined")
                ctx.notes.append("%s: depends on %s" % (what, tm.show(op)))
                continue
            ctx.ob(len(z) == 2, "noise draws", wh, "%s: the reading uses %d random draws, one for shot noise and one for read noise are specified" % (what, len(z)), what + " draws")
            for k in z:
                if k in used:
                    ctx.ob(False, "noise draws", wh, "%s: shares a random draw with %s" % (what, used[k]), what + " shared draw")
                used[k] = what
            if len(z) != 2:
                continue
            vs = [dict(v, z1=a, z2=b) for v in envs() for a, b in ((0.0, 0.0), (1.3, 0.0), (0.0, -0.8), (-2.1, 1.1), (2.5, 2.5), (-60.0, -30.0))]
            res = []
            for first in (0, 1):
                bad = None
                for v in vs:
                    Z.clear()
                    Z[z[first]], Z[z[1 - first]] = v["z1"], v["z2"]
                    e = {nm[n]: x for n, x in v.items() if n in nm}
                    got = cc.concrete(t.t if hasattr(t, "t") else t, e)
                    want = detector([v[p] for p in ps], [v[q] for q in qs], es, v, bits if bits else v["bits"], v["z1"], v["z2"])
                    if not isinstance(got, (int, float)) or isinstance(got, bool) or not abs(got - want) <= 1e-4 * abs(want) + 1e-7:
                        bad = (v, got, want)
                        break
                res.append(bad)
                if bad is None:
                    break
            ctx.count("pointwise")
            if res[-1] is None:
                ctx.ob(True, "readout", wh, "", what)
            elif any(not isinstance(b[1], (int, float)) for b in res):
                ctx.count("undetermined")
                ctx.notes.append("%s: not evaluated" % what)
            else:
                v, got, want = res[0]
                ctx.ob(False, "readout", wh, "%s: reading %.7g, the detector model gives %.7g at %s" % (what, got, want, ", ".join("%s=%.4g" % x for x in v.items())), what)
        return o, wh, nm
    if E3:
        for b in (8, 12):
            r = read("read_rgb%d" % b, {3 * p + c: (["p%d" % (3 * p + c)], ["q%d" % c], [E3[c]]) for p in (0, 1) for c in range(3)}, b, E3)
            if r:
                o, wh, nm = r
                for i in range(6):
                    pts("readout", "the received power is left as it is (%d)" % i, o, 6 + i, nm, envs()[:1], lambda v, i=i: v["p%d" % i], wh, atol=1e-20)
                const("readout", "sensor bit depth %d of the image" % b, o, 12, b, wh)
                const("readout", "width of the response", o, 13, 2, wh)
        read("read_cam", {0: (["p4"], ["q1"], [E3[1]])}, 12, E3)
        o, wh, nm = go("read_bits")
        if o:
            z = sorted(zs(out(o, 0)))
            Z.clear()
            vs = [dict(v, bits=b) for v in envs()[:12] for b in (1, 8, 10, 14, 16)]
            pts("readout", "reading for a symbolic bit depth", o, 0, nm, vs, lambda v: detector([v["p5"]], [v["q2"]], [E3[2]], v, v["bits"], 0, 0), wh, rel=1e-4)
            pts("readout", "bit depth of the image", o, 1, nm, vs, lambda v: float(v["bits"]), wh)
    o, wh, nm = go("read_spec")
    if o:
        Es = [cc.concrete(x.t if hasattr(x, "t") else x, {}) for x in (out(o, 3), out(o, 4))]
        ctx.require(all(isinstance(x, float) for x in Es), "photon energies")
        read("read_spec", {0: (["p0", "p1"], ["q0", "q1"], Es), 1: (["p2", "p3"], ["q0", "q1"], Es)}, 10, Es)
        const("readout", "sensor bit depth of the spectral image", o, 2, 10, wh)

    # ---------------------------------------------------------------- parameters
    o, wh, nm = go("gain")
    if o:
        vs = [{"db": a, "u": u, "g": g} for a in (-6.0, 0.0, 3.0, 20.0) for u in (0.0, 12.0, -3.5) for g in (0.3, 1.0, 4.0)]
        gg = lambda v: 10 ** ((v["u"] - v["db"]) / 20)
        for i, (lab, f) in enumerate((("gain after set_gain_db", gg), ("gain_db after set_gain_db", lambda v: v["db"]), ("gain_db after set_gain_adu", lambda v: v["u"] - 20 * math.log10(v["g"])), ("gain after set_gain_adu", lambda v: v["g"]), ("unity_db", lambda v: v["u"]),
                                      ("SensorConfig::set_gain_db", gg), ("SensorConfig::gain_db", lambda v: v["u"] - 20 * math.log10(v["g"])), ("set_gain_db with the default reference", lambda v: 10 ** (-v["db"] / 20)))):
            pts("sensor parameters", lab, o, i, nm, vs, f, wh, atol=1e-4)
    o, wh, nm = go("pitch")
    if o:
        vs = [{"px": 4.5, "py": 7.0, "w": 12.0, "h": 9.0, "nx": 640, "ny": 480}, {"px": 8.0, "py": 3.0, "w": 2.0, "h": 30.0, "nx": 100, "ny": 1000}]
        for i, (lab, f) in enumerate((("pitch x", lambda v: v["px"] * 1e-6), ("pitch y", lambda v: v["py"] * 1e-6), ("size x", lambda v: v["px"] * 1e-6 * v["nx"]), ("size y", lambda v: v["py"] * 1e-6 * v["ny"]), ("pitch x of a size", lambda v: v["w"] * 1e-3 / v["nx"]), ("pitch y of a size", lambda v: v["h"] * 1e-3 / v["ny"]),
                                      ("size x set", lambda v: v["w"] * 1e-3), ("size y set", lambda v: v["h"] * 1e-3), ("resolution x", lambda v: v["nx"]), ("resolution y", lambda v: v["ny"]))):
            pts("sensor parameters", lab, o, i, nm, vs, lambda v, f=f: float(f(v)), wh, atol=1e-12)
    o, wh, nm = go("params")
    if o:
        v = {"a": 1234.0, "b": 7.5, "c": 0.25, "d": 33.0, "e": 2.5, "g": 1.5, "n": 0, "bits": 9, "rot": 0.125}
        for i, lab in enumerate(("full well", "read noise", "dark current", "bias", "gain", "unity dB", "noise switch", "bit depth", "rotation")):
            pts("sensor parameters", "%s is what was set" % lab, o, i, nm, [v, dict(v, n=1)], lambda e, k=list(v)[i]: float(e[k]), wh)
        for i in range(3):
            pts("sensor parameters", "quantum efficiency %d is what was set" % i, o, 9 + i, nm, [v], lambda e, i=i: (0.1, 0.2, 0.3)[i], wh)
    ctx.require(ctx.cov.get("pointwise", 0) > 300, "frame buffer and readout")
