"""U02: quantities of different dimensions do not mix.

A type-level encoding: one static_assert per (pair of dimensions, operation) and per (API entry point,
dimension).  The compiler's overload resolution over /repo's current headers is the decision procedure;
a diagnostic names the obligation that fails.
"""
import re
from checks.unitdefs import DIMS, UNITS, SPECTRAL

COMPILE_IS_VIOLATION = True

# (label, parameters in scope, expression over q, dimensions that must be accepted)
API = [
    ("set_focal_length", "CameraModelHandle<RGB> h", "h.set_focal_length(q)", ("Length",)),
    ("set_diopters", "CameraModelHandle<RGB> h", "h.set_diopters(q)", ("ReciprocalLength",)),
    ("set_focus_distance", "CameraModelHandle<RGB> h", "h.set_focus_distance(q)", ("Length",)),
    ("set_sensor_pixel_pitch", "CameraModelHandle<RGB> h", "h.set_sensor_pixel_pitch(q)", ("Length",)),
    ("set_sensor_pixel_pitch_xy", "CameraModelHandle<RGB> h", "h.set_sensor_pixel_pitch(q, q)", ("Length",)),
    ("set_sensor_size", "CameraModelHandle<RGB> h", "h.set_sensor_size(q, q)", ("Length",)),
    ("set_sensor_size_w", "CameraModelHandle<RGB> h", "h.set_sensor_size(q)", ("Length",)),
    ("set_sensor_rotation", "CameraModelHandle<RGB> h", "h.set_sensor_rotation(q)", ("Angle",)),
    ("set_intrinsics", "CameraModelHandle<RGB> h, Resolution r", "h.set_intrinsics(1.f, 1.f, 1.f, 1.f, r, q)", ("Length",)),
    ("set_intrinsic_matrix", "CameraModelHandle<RGB> h, Resolution r, Mat3<float> m", "h.set_intrinsic_matrix(m, r, q)", ("Length",)),
    ("configure_sensor_from_pitch", "CameraModelHandle<RGB> h, Resolution r", "h.configure_sensor_from_pitch(r, q)", ("Length",)),
    ("configure_sensor_from_size", "CameraModelHandle<RGB> h, Resolution r", "h.configure_sensor_from_size(r, q)", ("Length",)),
    ("CircularAperture", "CircularAperture<RGB> h", "CircularAperture<RGB>(q)", ("Length",)),
    ("CircularAperture::set_area", "CircularAperture<RGB> h", "h.set_area(q)", ("Area",)),
    ("CircularAperture::set_diameter", "CircularAperture<RGB> h", "h.set_diameter(q)", ("Length",)),
    ("Ellipsoid x", "Meter m", "Ellipsoid<RGB>(q, m, m)", ("Length",)),
    ("Ellipsoid y", "Meter m", "Ellipsoid<RGB>(m, q, m)", ("Length",)),
    ("Ellipsoid z", "Meter m", "Ellipsoid<RGB>(m, m, q)", ("Length",)),
    ("add_ellipsoid", "Scene<RGB>& h", "h.add_ellipsoid(q, q, q)", ("Length",)),
    ("Interval::from_centered", "huira::Time t", "Interval::from_centered(t, q)", ("Time",)),
    ("Interval::from_start", "huira::Time t", "Interval::from_start(t, q)", ("Time",)),
    ("Time+", "huira::Time t", "t + q", ("Time",)),
    ("KeplerianOrbit a", "Node<RGB>& h, huira::Time t, Radian r", "h.set_keplerian_orbit(q, 0.1, r, r, r, r, t, 1.0)", ("Length",)),
    ("KeplerianOrbit i", "Node<RGB>& h, huira::Time t, Meter a, Radian r", "h.set_keplerian_orbit(a, 0.1, q, r, r, r, t, 1.0)", ("Angle",)),
    ("KeplerianOrbit O", "Node<RGB>& h, huira::Time t, Meter a, Radian r", "h.set_keplerian_orbit(a, 0.1, r, q, r, r, t, 1.0)", ("Angle",)),
    ("KeplerianOrbit w", "Node<RGB>& h, huira::Time t, Meter a, Radian r", "h.set_keplerian_orbit(a, 0.1, r, r, q, r, t, 1.0)", ("Angle",)),
    ("KeplerianOrbit M", "Node<RGB>& h, huira::Time t, Meter a, Radian r", "h.set_keplerian_orbit(a, 0.1, r, r, r, q, t, 1.0)", ("Angle",)),
    ("set_angular_velocity", "InstanceHandle<RGB> h", "h.set_angular_velocity(q, q, q)", ("AngularVelocity",)),
    ("set_body_angular_velocity", "InstanceHandle<RGB> h", "h.set_body_angular_velocity(q, q, q)", ("AngularVelocity",)),
    ("set_position", "InstanceHandle<RGB> h", "h.set_position(q, q, q)", ("Length",)),
    ("set_velocity", "InstanceHandle<RGB> h", "h.set_velocity(q, q, q)", ("Velocity",)),
    ("frame set_position", "FrameHandle<RGB> h", "h.set_position(q, q, q)", ("Length",)),
    ("set_euler_angles", "InstanceHandle<RGB> h", 'h.set_euler_angles(q, q, q, "XYZ")', ("Angle",)),
    ("set_rotation_local_to_parent", "InstanceHandle<RGB> h, Vec3<double> v", "h.set_rotation_local_to_parent(v, q)", ("Angle",)),
    ("set_rotation_parent_to_local", "InstanceHandle<RGB> h, Vec3<double> v", "h.set_rotation_parent_to_local(v, q)", ("Angle",)),
    ("extrinsic_euler_angles", "int i", 'Rotation<double>::extrinsic_euler_angles(q, q, q, "XYZ")', ("Angle",)),
    ("intrinsic_euler_angles", "int i", 'Rotation<double>::intrinsic_euler_angles(q, q, q, "XYZ")', ("Angle",)),
    ("from_local_to_parent", "Vec3<double> v", "Rotation<double>::from_local_to_parent(v, q)", ("Angle",)),
    ("from_parent_to_local", "Vec3<double> v", "Rotation<double>::from_parent_to_local(v, q)", ("Angle",)),
] + [("Rotation::%s" % n, "int i", "Rotation<double>::%s(q)" % n, ("Angle",)) for n in
     ("local_to_parent_x", "local_to_parent_y", "local_to_parent_z", "parent_to_local_x", "parent_to_local_y", "parent_to_local_z")] + [
    ("new_sphere_light radius", "Scene<RGB>& h, Watt w", 'h.new_sphere_light(q, w)', ("Length",)),
    ("new_sphere_light power", "Scene<RGB>& h, Meter m", 'h.new_sphere_light(m, q)', ("Power",)),
    ("new_unresolved_emitter", "Scene<RGB>& h", "h.new_unresolved_emitter(q)", ("Power",)),
    ("new_unresolved_object", "Scene<RGB>& h", "h.new_unresolved_object(q)", ("Irradiance",)),
    ("new_unresolved_sphere", "Scene<RGB>& h, InstanceHandle<RGB> s", "h.new_unresolved_sphere(q, s, 0.5f)", ("Length",)),
    ("SphereLight", "Meter m", "SphereLight<RGB>(m, q)", ("Power", "Temperature")),
    ("UnresolvedEmitter::set_spectral_power", "UnresolvedEmitter<RGB>& h", "h.set_spectral_power(q)", ("Power",)),
    ("UnresolvedObject::set_irradiance", "UnresolvedObject<RGB>& h", "h.set_irradiance(q)", ("Irradiance",)),
    ("UnresolvedObjectHandle::set_irradiance", "UnresolvedObjectHandle<RGB> h", "h.set_irradiance(q)", ("Irradiance",)),
    ("SensorModel::set_pixel_pitch", "SensorModel<RGB>& h", "h.set_pixel_pitch(q, q)", ("Length",)),
    ("SensorModel::set_rotation", "SensorModel<RGB>& h", "h.set_rotation(q)", ("Angle",)),
    ("SensorModel::set_sensor_size", "SensorModel<RGB>& h", "h.set_sensor_size(q, q)", ("Length",)),
    ("SensorModel::readout", "SensorModel<RGB>& h, FrameBuffer<RGB>& f", "h.readout(f, q)", ("Time",)),
    ("CameraModel::readout", "CameraModel<RGB>& h, FrameBuffer<RGB>& f", "h.readout(f, q)", ("Time",)),
]
SPECTRAL_API = [  # expression accepting spectral quantities
    ("new_sphere_light spectral", "Scene<RGB>& h, Meter m", "h.new_sphere_light(m, q)", ("Power", "Radiance")),
    ("new_unresolved_emitter spectral", "Scene<RGB>& h", "h.new_unresolved_emitter(q)", ("Power",)),
    ("new_unresolved_object spectral", "Scene<RGB>& h", "h.new_unresolved_object(q)", ("Irradiance",)),
    ("set_irradiance spectral", "UnresolvedObjectHandle<RGB> h", "h.set_irradiance(q)", ("Irradiance",)),
    ("set_spectral_power spectral", "UnresolvedEmitter<RGB>& h", "h.set_spectral_power(q)", ("Power",)),
]
BIN = {"plus": "a + b", "minus": "a - b", "addeq": "a += b", "subeq": "a -= b", "less": "a < b", "greater": "a > b",
       "lesseq": "a <= b", "greatereq": "a >= b", "equal": "a == b", "notequal": "a != b", "assign": "a = b",
       "construct": "A(b)", "convert": "a.template as<B>(), a.template as<typename B::scale_type>().to_si() == b.to_si(), a = a.template as<B>() + b"}
ORDER = list(DIMS)


def dimtype(e):
    return "Dimensionality<%s>" % ", ".join(map(str, e))


def witness():
    L = ['#include "all_headers.inc"', "namespace verif_dim {", "using namespace huira; using namespace huira::units;",
         "template <class D> using Q1 = Quantity<D, std::ratio<1, 1>>;", "template <class D> using Qk = Quantity<D, std::kilo>;",
         "template <class D> using SQ = SpectralQuantity<D, std::ratio<1, 1>, RGB>;", "struct TagX {};"]
    obs = []

    def sa(cond, label):
        L.append('static_assert(%s, "OB %s");' % (cond, label))
        obs.append(label)

    for d, e in DIMS.items():
        sa("std::is_same_v<huira::units::%s, %s>" % (d, dimtype(e)), "dimension %s" % d)
    for u in UNITS:
        sa("std::is_same_v<%s::dimension_type, %s>" % (u[0], dimtype(DIMS[u[1]])), "unit %s measures %s" % (u[0], u[1]))
    for u in SPECTRAL:
        sa("std::is_same_v<%s<RGB>::dimension_type, %s>" % (u[0], dimtype(DIMS[u[1]])), "unit %s measures %s" % (u[0], u[1]))
    for n, x in BIN.items():
        if n == "convert":
            continue
        L.append("template <class A, class B> concept op_%s = requires(A a, const B b) { %s; };" % (n, x))
    L.append("template <class A, class B> concept op_mul = requires(A a, const B b) { a * b; };")
    L.append("template <class A, class B> concept op_div = requires(A a, const B b) { a / b; };")
    ops = [n for n in BIN if n != "convert"]
    for i, d in enumerate(ORDER):
        for j, f in enumerate(ORDER):
            A, B = "Q1<huira::units::%s>" % d, "%s<huira::units::%s>" % ("Qk" if (i + j) % 2 else "Q1", f)
            if d == f:
                sa(" && ".join("op_%s<%s, %s>" % (n, A, B) for n in ops), "same dimension %s: all operations" % d)
                sa("std::is_convertible_v<%s, %s>" % (B, A), "same dimension %s: converts" % d)
                continue
            if "Dimensionless" in (d, f):
                use = [n for n in ops]
                # a dimensionless quantity is a number: scaling by it is fine, everything else is not
                use = [n for n in ops if n != "construct" or f != "Dimensionless"]
            else:
                use = ops
            for n in use:
                sa("!op_%s<%s, %s>" % (n, A, B), "%s %s %s" % (d, n, f))
            sa("!std::is_convertible_v<%s, %s>" % (B, A), "%s from %s" % (d, f))
            sa("!std::is_assignable_v<%s&, %s>" % (A, B), "%s assigned %s" % (d, f))
    for d in ORDER:
        for T in ("double", "float", "int", "unsigned long"):
            A = "Q1<huira::units::%s>" % d
            if d != "Dimensionless":
                sa("!std::is_convertible_v<%s, %s>" % (A, T), "%s to %s" % (d, T))
                sa("!std::is_constructible_v<%s, %s>" % (T, A), "%s cast to %s" % (d, T))
                sa("!std::is_convertible_v<%s, %s>" % (T, A), "%s to %s" % (T, d))
                for n in ("plus", "minus", "addeq", "subeq", "less", "greater", "lesseq", "greatereq", "equal", "notequal", "assign"):
                    sa("!op_%s<%s, %s>" % (n, A, T), "%s %s %s" % (d, n, T))
                    if n not in ("addeq", "subeq", "assign"):
                        sa("!op_%s<%s, %s>" % (n, T, A), "%s %s %s" % (T, n, d))
        for f in ORDER:
            e1, e2 = DIMS[d], DIMS[f]
            if "Dimensionless" in (d, f):
                continue
            A, B = "Q1<huira::units::%s>" % d, "Qk<huira::units::%s>" % f
            sa("std::is_same_v<decltype(%s(1.0) * %s(1.0))::dimension_type, %s>" % (A, B, dimtype([x + y for x, y in zip(e1, e2)])), "product %s %s" % (d, f))
            sa("std::is_same_v<decltype(%s(1.0) / %s(1.0))::dimension_type, %s>" % (A, B, dimtype([x - y for x, y in zip(e1, e2)])), "quotient %s %s" % (d, f))
        sa("std::is_same_v<decltype(1.0 / Q1<huira::units::%s>(1.0))::dimension_type, %s>" % (d, dimtype([-x for x in DIMS[d]])) if d != "Dimensionless" else "true", "reciprocal %s" % d)
    # spectral quantities
    for d in ("Power", "Irradiance", "Radiance", "Length"):
        for f in ("Power", "Irradiance", "Radiance", "Length"):
            A, B = "SQ<huira::units::%s>" % d, "SQ<huira::units::%s>" % f
            if d != f:
                sa("!std::is_convertible_v<%s, %s> && !std::is_constructible_v<%s, %s> && !std::is_assignable_v<%s&, %s>" % (B, A, A, B, A, B), "spectral %s from %s" % (d, f))
                sa("!op_equal<%s, %s>" % (A, B), "spectral %s == %s" % (d, f))
            sa("!std::is_convertible_v<Q1<huira::units::%s>, %s> && !std::is_convertible_v<%s, Q1<huira::units::%s>>" % (f, A, A, f), "spectral %s vs scalar %s" % (d, f))
        sa("!std::is_convertible_v<RGB, SQ<huira::units::%s>> && !std::is_convertible_v<SQ<huira::units::%s>, RGB>" % (d, d), "spectral %s vs bare bins" % d)
    for k, (label, params, expr, dims) in enumerate(API + SPECTRAL_API):
        sp = k >= len(API)
        W = "SQ" if sp else "Q1"
        L.append("template <class Q> concept api_%d = requires(%s, Q q) { %s; };" % (k, params, expr))
        for d in ORDER:
            if d == "Dimensionless":
                continue  # a dimensionless quantity is a plain number by design
            want = d in dims
            sa("%sapi_%d<%s<huira::units::%s>>" % ("" if want else "!", k, W, d), "%s %s %s" % (label, "accepts" if want else "rejects", d))
            if want and not sp:
                sa("api_%d<Qk<huira::units::%s>>" % (k, d), "%s accepts kilo-%s" % (label, d))
        if not sp:
            for T in ("double", "int"):
                sa("!api_%d<%s>" % (k, T), "%s rejects %s" % (label, T))
    L.append("}")
    return "\n".join(L) + "\n", obs


def run(ctx):
    text, obs = witness()
    ok, log = ctx.compile(text, flags=["-ferror-limit=0"])
    bad = {}
    other = []
    for ln in log.splitlines():
        m = re.search(r"static assertion failed.*OB (.*?)(\"|$)", ln)
        if m:
            bad[m.group(1).strip()] = ln
        elif " error:" in ln:
            other.append(ln)
    ctx.explanation = "each obligation is a static_assert over the library's own types, decided by overload resolution"
    ctx.level = "proof"
    ctx.trusted = ["clang 18 overload resolution"]
    ctx.cov["checker_cmd"] = "clang++ -std=gnu++20 -fsyntax-only (generated witness)"
    for o in obs:
        ctx.ob(o not in bad, "dimension", "include/huira/units", "obligation `%s` does not hold" % o, o)
    for ln in other[:10]:
        ctx.report("witness-ill-formed", ln.split(": ")[0], ln, re.sub(r"^.*error: ", "", ln)[:120])
    ctx.count("static_asserts", len(obs))
    ctx.sample(obs[0])
    ctx.sample(obs[-1])
