"""S04: setters take exactly the values of their domain, store exactly those, and leave the object alone when they refuse.

A witness per setter sets a good value, tries another one inside try/catch and reports whether it was refused and every
setting of the object afterwards. Its value graph is evaluated at the boundary points of the domain (infinities, NaN,
zeros, the least values beyond each bound) and compared with the table below.
"""
import math
from sa import fx
from sa import terms as tm

INF, NAN = float("inf"), float("nan")
F32 = 1.1920929e-07
POINTS = [-INF, -3e38, -1.0, -1e-3, -1e-30, -0.0, 0.0, 1e-30, 1e-3, 0.5, 1.0 - F32, 1.0, 1.0 + F32, 2.0, 3e38, INF, NAN]
WIDE = [-INF, -1e9, -1.0, -1e-3, -1e-9, -0.0, 0.0, 1e-9, 1e-3, 0.5, 1.0 - F32, 1.0, 1.0 + F32, 2.0, 1e9, INF]  # (quantities cannot be NaN)


def finite(v):
    return math.isfinite(v)


def positive(v):
    return math.isfinite(v) and v > 0


def nonneg(v):
    return math.isfinite(v) and v >= 0


def ratio(v):
    return 0 <= v <= 1


def same(v):
    return v


SENSOR = ["s.full_well_capacity()", "s.read_noise()", "s.dark_current()", "s.bias_level_dn()", "s.bit_depth()", "s.gain_adu()", "s.unity_db()", "s.resolution().x", "s.resolution().y",
          "s.pixel_pitch().x", "s.pixel_pitch().y", "s.quantum_efficiency()[0]", "s.quantum_efficiency()[1]", "s.simulate_noise()", "s.rotation().to_si()"]
SMAKE = "SimpleSensorConfig<S> k; k.resolution = Resolution{4, 2}; k.quantum_efficiency = S{0.25f}; k.rotation = units::Radian(0.5); SimpleSensor<S> s(k);"
CAMERA = ["c.focal_length().to_si()", "c.fstop()", "c.get_focus_distance().to_si()", "c.veiling_alpha_", "c.veiling_glare_enabled_", "c.scatter_fraction_", "c.scatter_falloff_exponent_", "c.r0_", "c.scatter_radius_", "c.scatter_enabled_",
          "c.convolve_psf_", "c.depth_of_field_"]
CMAKE = ("CameraModel<S> c; c.configure_sensor_from_pitch(Resolution{2, 2}, units::Meter(1e-3f)); c.set_focal_length(units::Meter(0.5f)); c.set_fstop(4.f); c.set_focus_distance(units::Meter(8.f)); "
         "c.set_veiling_glare(0.25f); c.set_harvey_shack_scatter(0.125f, 3.f, 0.75f, 2.f);")


def S(name, make, settings, call, arg, domain, effect, points=POINTS):
    return (name, make, settings, call, arg, domain, effect, points)


E = "EFF"
TABLE = [
    # sensor
    S("SensorModel::set_full_well_capacity", SMAKE, SENSOR, "s.set_full_well_capacity(v)", "float", positive, {0: same}),
    S("SensorModel::set_read_noise", SMAKE, SENSOR, "s.set_read_noise(v)", "float", nonneg, {1: same}),
    S("SensorModel::set_dark_current", SMAKE, SENSOR, "s.set_dark_current(v)", "float", nonneg, {2: same}),
    S("SensorModel::set_bias_level_dn", SMAKE, SENSOR, "s.set_bias_level_dn(v)", "float", nonneg, {3: same}),
    S("SensorModel::set_bit_depth", SMAKE, SENSOR, "s.set_bit_depth(v)", "int", lambda v: v > 0, {4: same}, [-2147483648, -1, 0, 1, 2, 8, 16, 32]),
    S("SensorModel::set_gain_adu", SMAKE, SENSOR, "s.set_gain_adu(v)", "float", positive, {5: same}),
    S("SensorModel::set_unity_db", SMAKE, SENSOR, "s.set_unity_db(v)", "float", finite, {6: same}),
    S("SensorModel::set_gain_db", SMAKE, SENSOR, "s.set_gain_db(v)", "float", finite, {5: lambda v: 10 ** (-v / 20)}, [-INF, INF, NAN, -20.0, -3.0, 0.0, 3.0, 20.0, 40.0]),
    S("SensorModel::set_gain_db (with unity_db 6)", SMAKE + " s.set_unity_db(6.f);", SENSOR, "s.set_gain_db(v)", "float", finite, {5: lambda v: 10 ** ((6 - v) / 20)}, [-INF, INF, NAN, -20.0, -3.0, 0.0, 3.0, 20.0, 40.0]),
    S("SensorModel::set_quantum_efficiency", SMAKE, SENSOR, "s.set_quantum_efficiency(S{v})", "float", ratio, {11: same, 12: same}),
    S("SensorModel::set_quantum_efficiency (last bin)", SMAKE, SENSOR, "S q{0.5f}; q[2] = v; s.set_quantum_efficiency(q)", "float", ratio, {11: lambda v: 0.5, 12: lambda v: 0.5}),
    S("SensorModel::set_resolution (x)", SMAKE, SENSOR, "s.set_resolution(Resolution{v, 3})", "int", lambda v: v >= 0, {7: same, 8: lambda v: 3}, [-2147483648, -1, 0, 1, 2, 4096]),
    S("SensorModel::set_resolution (y)", SMAKE, SENSOR, "s.set_resolution(Resolution{3, v})", "int", lambda v: v >= 0, {7: lambda v: 3, 8: same}, [-2147483648, -1, 0, 1, 2, 4096]),
    S("SensorModel::set_pixel_pitch (x)", SMAKE, SENSOR, "s.set_pixel_pitch(units::Meter(v), units::Meter(0.5f))", "float", positive, {9: same, 10: lambda v: 0.5}, WIDE),
    S("SensorModel::set_pixel_pitch (y)", SMAKE, SENSOR, "s.set_pixel_pitch(units::Meter(0.5f), units::Meter(v))", "float", positive, {9: lambda v: 0.5, 10: same}, WIDE),
    S("SensorModel::set_sensor_size (x)", SMAKE, SENSOR, "s.set_sensor_size(units::Meter(v), units::Meter(0.5f))", "float", positive, {9: lambda v: v / 4, 10: lambda v: 0.25}, WIDE),
    S("SensorModel::set_sensor_size (y)", SMAKE, SENSOR, "s.set_sensor_size(units::Meter(0.5f), units::Meter(v))", "float", positive, {9: lambda v: 0.125, 10: lambda v: v / 2}, WIDE),
    S("SensorModel::set_simulate_noise", SMAKE, SENSOR, "s.set_simulate_noise(v != 0)", "int", lambda v: True, {13: lambda v: float(v != 0)}, [0, 1]),
    S("SensorModel::set_rotation", SMAKE, SENSOR, "s.set_rotation(units::Radian(v))", "float", lambda v: True, {14: same}, [-3.0, 0.0, 1.0]),
    S("SensorModel constructor (resolution)", "bool s = false;", ["s"], "SimpleSensorConfig<S> k; k.resolution = Resolution{v, 2}; SimpleSensor<S> t(k); s = true", "int", lambda v: v >= 0, {0: lambda v: 1.0}, [-2147483648, -1, 0, 1, 4096]),
    S("SensorModel constructor (resolution y)", "bool s = false;", ["s"], "SimpleSensorConfig<S> k; k.resolution = Resolution{2, v}; SimpleSensor<S> t(k); s = true", "int", lambda v: v >= 0, {0: lambda v: 1.0}, [-2147483648, -1, 0, 1, 4096]),
    S("SensorModel constructor (pitch x)", "bool s = false;", ["s"], "SimpleSensorConfig<S> k; k.pitch_x = units::Meter(v); SimpleSensor<S> t(k); s = true", "float", lambda v: v > 0, {0: lambda v: 1.0}, WIDE[1:-1]),
    S("SensorModel constructor (pitch y)", "bool s = false;", ["s"], "SimpleSensorConfig<S> k; k.pitch_y = units::Meter(v); SimpleSensor<S> t(k); s = true", "float", lambda v: v > 0, {0: lambda v: 1.0}, WIDE[1:-1]),
    # camera
    S("CameraModel::set_focal_length", CMAKE, CAMERA, "c.set_focal_length(units::Meter(v))", "float", positive, {0: same, 1: lambda v: v / 0.125}, [x for x in WIDE if abs(x) != 1e-9]),
    S("CameraModel::set_fstop", CMAKE, CAMERA, "c.set_fstop(v)", "float", positive, {1: same}, [-INF, -1.0, -0.0, 0.0, 1e-3, 0.5, 1.4, 8.0, 64.0, INF, NAN]),
    S("CameraModel::set_focus_distance", CMAKE, CAMERA, "c.set_focus_distance(units::Meter(v))", "float", lambda v: abs(v) >= 1e-12, {2: same}, [-INF, -1.0, -1e-11, -1e-13, -0.0, 0.0, 1e-13, 1e-11, 1.0, 1e9, INF]),
    S("CameraModel::set_veiling_glare", CMAKE, CAMERA, "c.set_veiling_glare(v)", "float", ratio, {3: same, 4: lambda v: float(v > 0)}),
    S("CameraModel::disable_veiling_glare", CMAKE, CAMERA, "c.disable_veiling_glare()", "float", lambda v: True, {3: lambda v: 0.0, 4: lambda v: 0.0}, [0.0]),
    S("CameraModel::set_harvey_shack_scatter", CMAKE + "c.disable_harvey_shack_scatter();", CAMERA, "c.set_harvey_shack_scatter(v, 1.5f, 0.25f, 7.f)", "float", ratio, {5: same, 6: lambda v: 1.5, 7: lambda v: 0.25, 8: lambda v: 7.0, 9: lambda v: 1.0}),
    S("CameraModel::disable_harvey_shack_scatter", CMAKE, CAMERA, "c.disable_harvey_shack_scatter()", "float", lambda v: True, {5: lambda v: 0.0, 6: lambda v: 2.0, 7: lambda v: 0.5, 8: lambda v: 0.0, 9: lambda v: 0.0}, [0.0]),
    S("CameraModel::enable_psf_convolution", CMAKE, CAMERA, "c.enable_psf_convolution(v != 0)", "int", lambda v: True, {10: lambda v: float(v)}, [0, 1]),
    S("CameraModel::enable_depth_of_field", CMAKE, CAMERA, "c.enable_depth_of_field(v != 0)", "int", lambda v: True, {11: lambda v: float(v)}, [0, 1]),
    S("CameraModel::configure_sensor_from_pitch (cx)", CMAKE, CAMERA + ["c.cx_", "c.cy_"], "c.configure_sensor_from_pitch(Resolution{2, 2}, units::Meter(1e-3f), std::nullopt, v, 0.5f)", "float", finite, {12: same, 13: lambda v: 0.5}, [-INF, INF, NAN, -1.0, 0.0, 0.5, 1.0, 9.0]),
    S("CameraModel::configure_sensor_from_pitch (cy)", CMAKE, CAMERA + ["c.cx_", "c.cy_"], "c.configure_sensor_from_pitch(Resolution{2, 2}, units::Meter(1e-3f), std::nullopt, 0.5f, v)", "float", finite, {12: lambda v: 0.5, 13: same}, [-INF, INF, NAN, -1.0, 0.0, 0.5, 1.0, 9.0]),
    S("CameraModel::configure_sensor_from_size (cx)", CMAKE, CAMERA + ["c.cx_", "c.cy_"], "c.configure_sensor_from_size(Resolution{2, 2}, units::Meter(2e-3f), std::nullopt, v, 0.5f)", "float", finite, {12: same, 13: lambda v: 0.5}, [-INF, INF, NAN, -1.0, 0.0, 0.5, 1.0, 9.0]),
    S("CameraModel::configure_sensor_from_size (cy)", CMAKE, CAMERA + ["c.cx_", "c.cy_"], "c.configure_sensor_from_size(Resolution{2, 2}, units::Meter(2e-3f), std::nullopt, 0.5f, v)", "float", finite, {12: lambda v: 0.5, 13: same}, [-INF, INF, NAN, -1.0, 0.0, 0.5, 1.0, 9.0]),
    # radiometry
    S("SphereLight::set_spectral_power (total)", "SphereLight<S> l(units::Meter(1.f), units::Watt(1.f));", ["l.radiance(Vec3<float>{0, 0, 0}, Vec3<float>{0, 0, 1}).total()"],
      "l.set_spectral_power(units::Watt(v))", "float", nonneg, {0: lambda v: v / (4 * math.pi ** 2)}, WIDE),
    S("SphereLight::set_spectral_power (spectral)", "SphereLight<S> l(units::Meter(1.f), units::Watt(1.f));", ["l.radiance(Vec3<float>{0, 0, 0}, Vec3<float>{0, 0, 1}).total()"],
      "S p{0.f}; p[1] = v; l.set_spectral_power(units::SpectralWatts<S>(p))", "float", nonneg, {0: lambda v: v / (4 * math.pi ** 2)}, WIDE),
    S("SphereLight constructor (spectral radiance)", "bool s = false;", ["s"], "S p{0.f}; p[1] = v; SphereLight<S> l(units::Meter(1.f), units::SpectralWattsPerMeterSquaredSteradian<S>(p)); s = true", "float", nonneg, {0: lambda v: 1.0}, WIDE),
    S("SphereLight constructor (spectral power)", "bool s = false;", ["s"], "S p{0.f}; p[1] = v; SphereLight<S> l(units::Meter(1.f), units::SpectralWatts<S>(p)); s = true", "float", nonneg, {0: lambda v: 1.0}, WIDE),
    S("SphereLight constructor (power)", "bool s = false;", ["s"], "SphereLight<S> l(units::Meter(1.f), units::Watt(v)); s = true", "float", nonneg, {0: lambda v: 1.0}, WIDE),
    S("UnresolvedObject::set_irradiance (total)", "UnresolvedObject<S> u(units::WattsPerMeterSquared(3.f));", ["u.get_irradiance(Time::from_et(0.0)).total()"],
      "u.set_irradiance(units::WattsPerMeterSquared(v))", "float", nonneg, {0: same}, WIDE),
    S("UnresolvedObject::set_irradiance (spectral)", "UnresolvedObject<S> u(units::WattsPerMeterSquared(3.f));", ["u.get_irradiance(Time::from_et(0.0)).total()"],
      "S p{0.f}; p[2] = v; u.set_irradiance(units::SpectralWattsPerMeterSquared<S>(p))", "float", nonneg, {0: same}, WIDE),
    S("UnresolvedEmitter::set_spectral_power (total)", "UnresolvedEmitter<S> u(units::Watt(3.f));", ["u.spectral_power_.total()"], "u.set_spectral_power(units::Watt(v))", "float", nonneg, {0: same}, WIDE),
    S("UnresolvedEmitter::set_spectral_power (spectral)", "UnresolvedEmitter<S> u(units::Watt(3.f));", ["u.spectral_power_.total()"], "S p{0.f}; p[0] = v; u.set_spectral_power(units::SpectralWatts<S>(p))", "float", nonneg, {0: same}, WIDE),
    S("ConstantDensityField constructor (absorption)", "bool s = false;", ["s"], "S p{0.f}; p[2] = v; ConstantDensityField<S> d(p, S{1.f}); s = true", "float", lambda v: v >= 0, {0: lambda v: 1.0}),
    S("ConstantDensityField constructor (scattering)", "bool s = false;", ["s"], "S p{0.f}; p[2] = v; ConstantDensityField<S> d(S{1.f}, p); s = true", "float", lambda v: v >= 0, {0: lambda v: 1.0}),
    # common validators
    S("validate_real", "bool s = false;", ["s"], 'validate_real(v, "x"); s = true', "double", finite, {0: lambda v: 1.0}),
    S("validate_strictly_positive", "bool s = false;", ["s"], 'validate_strictly_positive(v, "x"); s = true', "double", positive, {0: lambda v: 1.0}),
    S("validate_real (vector)", "bool s = false;", ["s"], 'validate_real(Vec3<double>{1, 2, v}, "x"); s = true', "double", finite, {0: lambda v: 1.0}),
    S("validate_strictly_positive (vector)", "bool s = false;", ["s"], 'validate_strictly_positive(Vec3<double>{1, v, 2}, "x"); s = true', "double", positive, {0: lambda v: 1.0}),
    S("validate_real (matrix)", "bool s = false;", ["s"], 'Mat3<double> m(1.0); m[2][1] = v; validate_real(m, "x"); s = true', "double", finite, {0: lambda v: 1.0}),
    S("Dimensionless", "double s = 0.25;", ["s"], "auto q = units::Quantity<units::Dimensionless, std::ratio<1, 1>>(v); s = q.to_si()", "double", finite, {0: same}),
    S("quantities refuse NaN", "double s = 0.25;", ["s"], "units::Meter q(v); s = q.to_si()", "double", lambda v: v == v, {0: same}),
]
# the ways a sphere / an asteroid checks its own parameters need a light in a scene; they are in M06


def text():
    t = ['#include <array>', '#include <vector>', '#include <optional>', '#include "huira/huira.hpp"', '#include "huira/util/validate.hpp"', "using namespace huira;", "using S = RGB;", "using A = std::array<double, 48>;", "namespace verif_w {"]
    for i, (name, make, settings, call, arg, dom, eff, pts) in enumerate(TABLE):
        n = len(settings)
        read = lambda o: " ".join("o[%d] = static_cast<double>(%s);" % (o + j, e) for j, e in enumerate(settings))
        t.append("A w%d(%s v) { A o{}; %s %s try { %s; } catch (...) { o[0] = 1; } %s return o; }" % (i, arg, make, read(1), call, read(1 + n)))
    t.append("}")
    return "\n".join(t)


def run(ctx):
    W = fx.Wit(ctx, "w_s04.cpp", text(), flags=["-fno-access-control"])
    P = W.P
    NOP = (lambda *a: tm.c(0), True)
    models = {"huira::Aperture::build_defocus_kernel": NOP}

    def calm(I):
        I.calm = True

    def one(i):
        name, make, settings, call, arg, dom, eff, pts = TABLE[i]
        o = W.run("w%d" % i, models=models, unroll=12, budget=4000000, setup=calm)
        if not o.ok:
            return None if o.stopped else [("refuses", "never", name, "")]
        from sa.concrete import concrete
        v = tm.mk("par", o.fn.params[0]["d"])

        def get(j):
            t = o.load(tm.el(o.r.val, tm.c(j)))
            return getattr(t, "t", t)
        n = len(settings)
        out = []
        und = 0

        def close(g, x, at):
            return g == x or (g != g and x != x) or abs(g - x) <= 3e-6 * max(abs(x), abs(g)) + 1e-45
        for p in pts:
            env = {v: p}
            r = concrete(get(0), env)
            if r is None:
                und += 1
                continue
            if bool(r) == bool(dom(p)):
                out.append(("refuses", "%s is %s" % (p, "accepted, although it is outside the domain" if dom(p) is False or not dom(p) else "refused, although it is in the domain"), name, p))
                continue
            out.append(("refuses", None, name, p))
            for j, s in enumerate(settings):
                a, b = concrete(get(1 + j), env), concrete(get(1 + n + j), env)
                want = eff[j](p) if dom(p) and j in eff else a
                if b is None or want is None:
                    und += 1
                    continue
                ok = close(b, want, p)
                out.append(("stores" if dom(p) else "unchanged", None if ok else "%s(%s): %s is %.9g afterwards instead of %.9g%s" % (name, p, s, b, want, "" if dom(p) else " although the call was refused"), name, "%s/%d" % (p, j)))
        return out, und

    from sa import par
    done = 0
    for i, res in enumerate(par.each(one, list(range(len(TABLE))))):
        name = TABLE[i][0]
        if not isinstance(res, tuple):
            ctx.count("undetermined")
            ctx.notes.append("%s: not followed to its end" % name)
            continue
        out, und = res
        key = name.split(" ")[0]
        f = next((f for f in P.defs if f.has_body and f.file and not f.file.startswith("/") and (f.key == "huira::" + key or (f.sp == "ctor" and (f.clskey or "") == "huira::" + key))), None)
        where = f.where if f is not None else key
        if und:
            ctx.count("undetermined", und)
            ctx.notes.append("%s: undetermined at %d points" % (name, und))
        if out:
            done += 1
            ctx.sample(name)
        for rule, msg, nm, p in out:
            ctx.ob(msg is None, rule, where, "%s: %s" % (nm, msg) if rule == "refuses" else msg, "%s/%s/%s" % (nm, rule, p))
    ctx.count("setters", done)
    ctx.require(done, "setters")
    ctx.level = "static analysis: value graph of each setter at the boundaries of its domain vs a table of domains and effects"
