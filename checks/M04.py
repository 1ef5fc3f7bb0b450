"""M04: the camera model and lens distortions follow their formulas.

Witness functions configure a camera through its public interface with symbolic intrinsics on a small sensor and
read back projections, rays, areas, visibility; the value graph of every result is compared with the pinhole model
and with the published distortion models. The inverse distortion is an uninterpreted function inside the camera;
its iterates are checked on their own.
"""
import itertools
import math
from sa import fx
from sa import terms as tm
from sa.alg import E, F, V, sqrt, ite
from sa.concrete import concrete, FUN

FT = ("f",)
RES = 4

BROWN = ["k1", "k2", "k3", "p1", "p2"]
OPENCV = ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s1", "s2", "s3", "s4"]
OWEN = ["e1", "e2", "e3", "e4", "e5", "e6"]


def brown(k, x, y):
    k1, k2, k3, p1, p2 = k
    r2 = x * x + y * y
    f = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2
    return (x * f + 2 * p1 * x * y + p2 * (r2 + 2 * x * x), y * f + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y)


def opencv(k, x, y):
    k1, k2, k3, k4, k5, k6, p1, p2, s1, s2, s3, s4 = k
    # (the library's p1/p2 follow OpenCV: x += 2 p1 xy + p2 (r2 + 2x2))
    r2 = x * x + y * y
    f = (1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2) / (1 + k4 * r2 + k5 * r2 * r2 + k6 * r2 * r2 * r2)
    return (x * f + 2 * p1 * x * y + p2 * (r2 + 2 * x * x) + s1 * r2 + s2 * r2 * r2,
            y * f + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y + s3 * r2 + s4 * r2 * r2)


def owen(k, x, y):
    e1, e2, e3, e4, e5, e6 = k
    r2 = x * x + y * y
    r = r2 ** 0.5 if isinstance(r2, float) else sqrt(r2)
    rad = 1 + e2 * r2 + e4 * r2 * r2 + e5 * y + e6 * x
    rot = e1 * r + e3 * r * r2
    return (x * rad - y * rot, y * rad + x * rot)


DIST = {"brown": ("BrownDistortion", "BrownCoefficients", BROWN, brown, "set_brown_conrady_distortion"),
        "opencv": ("OpenCVDistortion", "OpenCVCoefficients", OPENCV, opencv, "set_opencv_distortion"),
        "owen": ("OwenDistortion", "OwenCoefficients", OWEN, owen, "set_owen_distortion")}

def UNDX(x, y):  # an arbitrary stand-in where the uninterpreted inverse distortion is evaluated at a point
    return 1.07 * x - 0.03 * y + 0.2 * x * y


def UNDY(x, y):
    return 0.94 * y + 0.05 * x - 0.3 * x * x


FUN["undistort0"] = UNDX
FUN["undistort1"] = UNDY
INTR = "c.set_intrinsics(fx, fy, cx, cy, Resolution{%d, %d}, units::Meter(f));" % (RES, RES)
INP = "float fx, float fy, float cx, float cy, float f"


def text():
    t = ['#include "huira/huira.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, 16>;"]

    def w(name, params, body):
        t.append("A %s(%s) { A o{}; %s return o; }" % (name, params, body))
    for n, (cls, co, ks, _, setter) in DIST.items():
        kp = ", ".join("double " + k for k in ks)
        kk = ", ".join(ks)
        w("distort_" + n, kp + ", float x, float y", "%s<RGB> d(%s(%s)); Pixel p = d.distort(Pixel{x, y}); o[0] = p[0]; o[1] = p[1];" % (cls, co, kk))
        w("ident_" + n, "float x, float y", "%s<RGB> d; Pixel p = d.distort(Pixel{x, y}); o[0] = p[0]; o[1] = p[1];" % cls)
        for it in (0, 1, 2):
            w("undistort%d_%s" % (it, n), kp + ", float x, float y", "%s<RGB> d(%s(%s)); d.set_tolerance(1e-30f); d.set_max_iterations(%d); Pixel p = d.undistort(Pixel{x, y}); o[0] = p[0]; o[1] = p[1];" % (cls, co, kk, it))
        w("undistort_tol_" + n, kp + ", float x, float y, float tol", "%s<RGB> d(%s(%s)); d.set_tolerance(tol); d.set_max_iterations(2); Pixel p = d.undistort(Pixel{x, y}); o[0] = p[0]; o[1] = p[1];" % (cls, co, kk))
        for b in ("false", "true"):
            w("cam_%s_%s" % (n, b), INP + ", " + kp + ", float x, float y, float z", "CameraModel<RGB> c; %s c.%s(%s(%s)); c.use_blender_convention(%s); Pixel p = c.project_point(Vec3<float>{x, y, z}); o[0] = p[0]; o[1] = p[1]; auto r = c.cast_ray(2, 1); o[2] = r.direction().x; o[3] = r.direction().y; o[4] = r.direction().z; o[5] = r.origin().x; o[6] = r.origin().y; o[7] = r.origin().z; auto q = c.cast_ray(3, 0); o[8] = q.direction().x; o[9] = q.direction().y; o[10] = q.direction().z; auto t = c.cast_ray(0, 3); o[11] = t.direction().x; o[12] = t.direction().y; o[13] = t.direction().z;" % (INTR, setter, co, kk, b))
            w("camdof_%s_%s" % (n, b), INP + ", " + kp + ", float N, float d, float u, float v", "CameraModel<RGB> c; c.set_intrinsics(3.f, 2.f, 1.5f, 2.25f, Resolution{4, 4}, units::Meter(f)); c.%s(%s(%s)); c.use_blender_convention(%s); c.set_fstop(N); c.set_focus_distance(units::Meter(d)); c.enable_depth_of_field(); DeterministicSampler<float> s(0.5f, Vec2<float>{u, v}); auto r = c.cast_ray(Pixel{2, 1}, s); o[2] = r.direction().x; o[3] = r.direction().y; o[4] = r.direction().z; o[5] = r.origin().x; o[6] = r.origin().y; o[7] = r.origin().z;" % (setter, co, kk, b))
    for b in ("false", "true"):
        w("project_" + b, INP + ", float x, float y, float z", "CameraModel<RGB> c; %s c.use_blender_convention(%s); Pixel p = c.project_point(Vec3<float>{x, y, z}); o[0] = p[0]; o[1] = p[1];" % (INTR, b))
        w("ray_" + b, INP + ", float x, float y", "CameraModel<RGB> c; %s c.use_blender_convention(%s); auto r = c.cast_ray(Pixel{x, y}); o[2] = r.direction().x; o[3] = r.direction().y; o[4] = r.direction().z; o[5] = r.origin().x; o[6] = r.origin().y; o[7] = r.origin().z; auto q = c.cast_ray(3, 2); o[8] = q.direction().x; o[9] = q.direction().y; o[10] = q.direction().z;" % (INTR, b))
        w("dof_" + b, INP + ", float N, float d, float u, float v", "CameraModel<RGB> c; %s c.use_blender_convention(%s); c.set_fstop(N); c.set_focus_distance(units::Meter(d)); c.enable_depth_of_field(); DeterministicSampler<float> s(0.5f, Vec2<float>{u, v}); auto r = c.cast_ray(Pixel{2, 1}, s); o[2] = r.direction().x; o[3] = r.direction().y; o[4] = r.direction().z; o[5] = r.origin().x; o[6] = r.origin().y; o[7] = r.origin().z;" % (INTR, b))
        w("nodof_" + b, INP + ", float N, float d, float u, float v", "CameraModel<RGB> c; %s c.use_blender_convention(%s); c.set_fstop(N); c.set_focus_distance(units::Meter(d)); c.enable_depth_of_field(false); DeterministicSampler<float> s(0.5f, Vec2<float>{u, v}); auto r = c.cast_ray(Pixel{2, 1}, s); o[2] = r.direction().x; o[3] = r.direction().y; o[4] = r.direction().z; o[5] = r.origin().x; o[6] = r.origin().y; o[7] = r.origin().z;" % (INTR, b))
        w("fov_" + b, INP + ", float x, float y, float z", "CameraModel<RGB> c; %s c.use_blender_convention(%s); o[0] = c.in_fov(Vec3<float>{x, y, z}); Pixel p = c.try_project_point(Vec3<float>{x, y, z}); o[1] = p[0]; o[2] = p[1];" % (INTR, b))
        w("power_" + b, INP + ", float N", "CameraModel<RGB> c; %s c.use_blender_convention(%s); c.set_fstop(N); o[0] = c.pixel_radiance_to_power(1, 2); o[1] = c.pixel_radiance_to_power(0, 3); o[2] = c.pixel_radiance_to_power(3, 0);" % (INTR, b))
    w("matrix", INP, "CameraModel<RGB> c; Mat3<float> K(1.0f); K[0][0] = fx; K[1][1] = fy; K[2][0] = cx; K[2][1] = cy; c.set_intrinsic_matrix(K, Resolution{4, 4}, units::Meter(f)); Pixel p = c.project_point(Vec3<float>{0.25f, 0.5f, 1.0f}); o[0] = p[0]; o[1] = p[1]; o[2] = c.focal_length().to_si(); o[3] = c.resolution().x; o[4] = c.resolution().y;")
    P = "Pixel p = c.project_point(Vec3<float>{x, y, 1.0f}); o[0] = p[0]; o[1] = p[1]; o[2] = c.focal_length().to_si(); o[3] = c.resolution().x; o[4] = c.resolution().y;"
    w("pitch1", "float f, float a, float x, float y", "CameraModel<RGB> c; c.set_focal_length(units::Meter(f)); c.configure_sensor_from_pitch(Resolution{4, 6}, units::Meter(a)); " + P)
    w("pitch2", "float f, float a, float b, float x, float y, float cx, float cy", "CameraModel<RGB> c; c.set_focal_length(units::Meter(f)); c.configure_sensor_from_pitch(Resolution{4, 6}, units::Meter(a), units::Micrometer(1e6f * b), cx, cy); " + P)
    w("size1", "float f, float a, float x, float y", "CameraModel<RGB> c; c.set_focal_length(units::Meter(f)); c.configure_sensor_from_size(Resolution{4, 6}, units::Meter(a)); " + P)
    w("size2", "float f, float a, float b, float x, float y, float cx, float cy", "CameraModel<RGB> c; c.set_focal_length(units::Meter(f)); c.configure_sensor_from_size(Resolution{4, 6}, units::Meter(a), units::Millimeter(1e3f * b), cx, cy); " + P)
    w("after", "float f, float a, float b, float x, float y, float cx, float cy", "CameraModel<RGB> c; c.configure_sensor_from_pitch(Resolution{4, 6}, units::Meter(a), units::Micrometer(1e6f * b), cx, cy); c.set_focal_length(units::Meter(f)); " + P)
    w("explicit_then_focal", INP + ", float g, float x, float y", "CameraModel<RGB> c; %s c.set_focal_length(units::Meter(g)); %s" % (INTR, P))
    w("stop", "float f, float N, float x, float y, float z", "CameraModel<RGB> c; c.configure_sensor_from_pitch(Resolution{2, 2}, units::Meter(1e-5f)); c.set_focal_length(units::Meter(f)); c.set_fstop(N); o[0] = c.fstop(); o[1] = c.get_projected_aperture_area(Vec3<float>{x, y, z});")
    w("diopt", "float d", "CameraModel<RGB> c; c.set_diopters(units::Diopter(d)); o[0] = c.get_diopters().to_si(); o[1] = c.get_focus_distance().to_si();")
    w("focus", "float d", "CameraModel<RGB> c; c.set_focus_distance(units::Meter(d)); o[0] = c.get_diopters().to_si(); o[1] = c.get_focus_distance().to_si();")
    w("aper", "float d, float u, float v", "CircularAperture<RGB> a(units::Meter{d}); o[0] = a.get_area().to_si(); o[1] = a.get_diameter().to_si(); o[2] = a.get_bounding_radius().to_si(); DeterministicSampler<float> s(0.5f, Vec2<float>{u, v}); Vec2<float> p = a.sample(s); o[3] = p.x; o[4] = p.y;")
    w("aper_area", "float q, float u, float v", "CircularAperture<RGB> a(units::Meter{1.0f}); a.set_area(units::SquareMeter(q)); o[0] = a.get_area().to_si(); o[1] = a.get_diameter().to_si(); o[2] = a.get_bounding_radius().to_si(); DeterministicSampler<float> s(0.5f, Vec2<float>{u, v}); Vec2<float> p = a.sample(s); o[3] = p.x; o[4] = p.y;")
    w("defocus", "float d, float f, float a, float b", "CircularAperture<RGB> q(units::Meter{0.01f}); q.build_defocus_kernel(units::Diopter(d), units::Meter(f), units::Meter(a), units::Meter(b), 1); o[0] = q.get_defocus_radius(); o[1] = q.has_defocus();")
    w("rot", "double q", "SimpleSensorConfig<RGB> k; k.rotation = units::Radian(q); CameraModel<RGB> c; c.set_sensor<SimpleSensor<RGB>>(k); auto R = c.sensor_rotation(); Vec3<double> v = R * Vec3<double>{1, 2, 3}; o[0] = v.x; o[1] = v.y; o[2] = v.z;")
    t.append("}")
    return "\n".join(t)


def undistort_model():
    def m(I, n, f, this, args, argn, on, st, fr):
        a = args[0]
        rec = I.P.ty(I.P.deref_type(f.ret))
        at = {q["n"]: q["d"] for q in I.P.records[rec["rec"]]["fields"]}
        x = [E(I.load(st, tm.fld(a, at[i]), FT)) for i in "xy"]
        r = I.tmp(n, fr, "undistorted")
        I.kill_sub(st, r)
        st.store.pop(r, None)
        for i in range(2):
            st.store[tm.fld(r, at["xy"[i]])] = tm.settype(F("undistort%d" % i, *x).t, FT)
        return r
    return (m, True)


def run(ctx):
    W = fx.Wit(ctx, "w_m04.cpp", text())
    W.scoped()
    P = W.P
    UND = {"huira::%s::undistort" % c: undistort_model() for c in ("Distortion", "BrownDistortion", "OpenCVDistortion", "OwenDistortion")}

    # the blur kernels are not read by any witness but "defocus"
    NOP = (lambda I, n, f, this, args, argn, on, st, fr: tm.c(0), True)
    SKIP = {"huira::Aperture::build_defocus_kernel": NOP}

    def go(nm, models=None, **kw):
        o = W.run(nm, models=dict(models or {}, **({} if nm == "defocus" else SKIP)), **dict(dict(unroll=12, budget=8000000), **kw))
        wh = fx.where_of(P, o.fn, last=True)[0]
        if not o.ok:
            o.never("returns", wh, "%s never returns a value" % nm, nm)
            return None, wh, None
        ctx.sample(nm)
        names = {p["n"]: E(tm.mk("par", p["d"])) for p in o.fn.params}
        return o, wh, names

    def out(o, i):
        return E(o.load(tm.el(o.r.val, tm.c(i))))

    def grid(names, n=24, over=None, seed=1):
        """Deterministic sample points for the parameters."""
        import random
        rnd = random.Random(seed)
        envs = []
        for _ in range(n):
            e = {}
            for k, p in names.items():
                lo, hi = (over or {}).get(k, (-0.9, 0.9))
                e[p.t] = rnd.uniform(lo, hi)
            envs.append(e)
        return envs

    # ---------------------------------------------------------------- distortions
    for n, (cls, co, ks, fn, _) in DIST.items():
        o, wh, a = go("distort_" + n)
        if o:
            w = fn([a[k] for k in ks], a["x"], a["y"])
            over = {k: (-0.2, 0.2) for k in ks}
            for i in range(2):
                if n == "opencv":  # (guarded division: compare at points)
                    fx.points(ctx, "distortion", "distort_%s %s" % (n, "xy"[i]), out(o, i).t, grid(a, 24, over), lambda e, i=i: fn([e[a[k].t] for k in ks], e[a["x"].t], e[a["y"].t])[i], wh)
                    # every coefficient on its own, as formulas
                    z = grid(a, 1)[0]
                else:
                    fx.check(ctx, "distortion", "distort_%s %s" % (n, "xy"[i]), out(o, i), w[i], wh)
        o, wh, a = go("ident_" + n)
        if o:
            for i in range(2):
                fx.check(ctx, "distortion", "%s without coefficients %s" % (n, "xy"[i]), out(o, i), a["xy"[i]], wh)
        for it in (0, 1, 2):
            o, wh, a = go("undistort%d_%s" % (it, n))
            if not o:
                continue

            def iterate(e, it=it):
                k = [e[a[q].t] for q in ks]
                x, y = X, Y = e[a["x"].t], e[a["y"].t]
                for _ in range(it):
                    p, q = fn(k, x, y)
                    x, y = X - (p - x), Y - (q - y)
                return x, y
            over = {k: (-0.2, 0.2) for k in ks}
            for i in range(2):
                fx.points(ctx, "undistortion", "iterate %d of undistort_%s %s" % (it, n, "xy"[i]), out(o, i).t, grid(a, 16, over), lambda e, i=i: iterate(e)[i], wh)
        o, wh, a = go("undistort_tol_" + n)
        if o:
            def stop(e):
                k = [e[a[q].t] for q in ks]
                X, Y = e[a["x"].t], e[a["y"].t]
                p, q = fn(k, X, Y)
                x1, y1 = X - (p - X), Y - (q - Y)
                err = math.hypot(x1 - X, y1 - Y)
                if abs(err - e[a["tol"].t]) < 1e-3:
                    return None
                if err < e[a["tol"].t]:
                    return x1, y1
                p, q = fn(k, x1, y1)
                return X - (p - x1), Y - (q - y1)
            over = dict({k: (-0.2, 0.2) for k in ks}, tol=(0.01, 0.4))
            for i in range(2):
                fx.points(ctx, "undistortion", "undistort_%s stops at the tolerance, %s" % (n, "xy"[i]), out(o, i).t, grid(a, 40, over), lambda e, i=i: (stop(e) or (None, None))[i], wh)

    # ---------------------------------------------------------------- pinhole
    def norm(v):
        s = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
        return [q / s for q in v]

    def proj(a, bl, x=None, y=None, z=None, d=None):
        x, y, z = (a["x"], a["y"], a["z"]) if x is None else (x, y, z)
        nx, ny = (x / -z, (-y) / -z) if bl else (x / z, y / z)
        if d is not None:
            nx, ny = d(nx, ny)
        return a["fx"] * nx + a["cx"], a["fy"] * ny + a["cy"]

    def pos(a, *more):
        return [a[k].t for k in ("fx", "fy", "f") + more if k in a]
    for bl in (False, True):
        b = "true" if bl else "false"
        sg = -1 if bl else 1
        how = " (blender convention)" if bl else ""
        o, wh, a = go("project_" + b)
        if o:
            for i, w in enumerate(proj(a, bl)):
                fx.check(ctx, "projection", "project_point%s %s" % (how, "xy"[i]), out(o, i), w, wh)
        o, wh, a = go("ray_" + b)
        if o:
            d = norm([(a["x"] - a["cx"]) / a["fx"], (a["y"] - a["cy"]) / a["fy"] * sg, E(sg)])
            q = norm([(3 - a["cx"]) / a["fx"], (2 - a["cy"]) / a["fy"] * sg, E(sg)])
            for i in range(3):
                fx.check(ctx, "rays", "cast_ray%s direction %s" % (how, "xyz"[i]), out(o, 2 + i), d[i], wh, positive=pos(a))
                fx.check(ctx, "rays", "cast_ray%s origin %s" % (how, "xyz"[i]), out(o, 5 + i), E(0), wh)
                fx.check(ctx, "rays", "cast_ray(int, int)%s direction %s" % (how, "xyz"[i]), out(o, 8 + i), q[i], wh, positive=pos(a))
        # depth of field: every aperture sample sees the point of the pinhole ray on the plane of focus
        for kind in ("dof", "nodof"):
            o, wh, a = go("%s_%s" % (kind, b))
            if not o:
                continue
            over = {"fx": (20, 90), "fy": (20, 90), "cx": (0, 4), "cy": (0, 4), "f": (0.01, 0.2), "N": (1.2, 8), "d": (1, 50), "u": (0.05, 0.95), "v": (0.05, 0.95)}
            dof(ctx, out, o, wh, a, grid(a, 16, over), kind, how, lambda e: ((2 - e[a["cx"].t]) / e[a["fx"].t], (1 - e[a["cy"].t]) / e[a["fy"].t] * sg, float(sg)))
        o, wh, a = go("fov_" + b)
        if o:
            over = {"fx": (3, 9), "fy": (3, 9), "cx": (1.5, 2.5), "cy": (1.5, 2.5), "f": (0.01, 0.2)}
            envs = []
            base = grid(a, 6, over)
            # pixel positions clearly inside (between the outermost pixels) or outside (beyond the sensor), in front or behind
            for e in base:
                for px, py in itertools.product((-3.0, -0.6, 0.3, 1.4, 2.8, 4.6, 8.0), repeat=2):
                    for dep in (1.0, 40.0, -1.0, -40.0):
                        e2 = dict(e)
                        x = (px - e[a["cx"].t]) / e[a["fx"].t]
                        y = (py - e[a["cy"].t]) / e[a["fy"].t]
                        e2[a["x"].t], e2[a["y"].t], e2[a["z"].t] = x * abs(dep), y * abs(dep) * sg, dep * sg
                        e2["want"] = 0 < px < 3 and 0 < py < 3 and dep > 0
                        e2["px"], e2["py"] = px, py
                        envs.append(e2)
            say = lambda e: "a point that projects to pixel (%.1f, %.1f) of %dx%d, z=%.3g" % (e["px"], e["py"], RES, RES, e[a["z"].t])
            fx.points(ctx, "field of view", "in_fov%s" % how, out(o, 0).t, envs, lambda e: float(e["want"]), wh, say=say)
            for i in range(2):
                fx.points(ctx, "field of view", "try_project_point%s %s" % (how, "xy"[i]), out(o, 1 + i).t, envs, lambda e, i=i: e[("px", "py")[i]] if e["want"] else float("nan"), wh, rel=1e-4, atol=1e-4, say=say)
        o, wh, a = go("power_" + b)
        if o:
            over = {"fx": (20, 90), "fy": (20, 90), "cx": (0, 4), "cy": (0, 4), "f": (0.01, 0.2), "N": (1.2, 8)}
            for j, (px, py) in enumerate(((1, 2), (0, 3), (3, 0))):
                def power(e, px=px, py=py):
                    g = lambda k: e[a[k].t]
                    cs = [((x - g("cx")) / g("fx"), (y - g("cy")) / g("fy"), 1.0) for x, y in ((px, py), (px + 1, py), (px + 1, py + 1), (px, py + 1))]
                    om = tri(cs[0], cs[1], cs[2]) + tri(cs[0], cs[2], cs[3])
                    area = math.pi * (g("f") / g("N")) ** 2 / 4
                    return om * area / math.sqrt(sum(q * q for q in cs[0]))
                fx.points(ctx, "radiance to power", "pixel_radiance_to_power(%d, %d)%s" % (px, py, how), out(o, j).t, grid(a, 10, over), power, wh, rel=2e-5)
        # ------------------------------------------------------------ with distortion
        for n, (cls, co, ks, fn, _) in DIST.items():
            o, wh, a = go("cam_%s_%s" % (n, b), models=UND)
            if o:
                over = dict({k: (-0.2, 0.2) for k in ks}, fx=(20, 90), fy=(20, 90), cx=(0, 4), cy=(0, 4), f=(0.01, 0.2), z=(0.5, 3))
                for i in range(2):
                    def want(e, i=i):
                        g = lambda k: e[a[k].t]
                        z = g("z")
                        nx, ny = (g("x") / -z, g("y") / z) if bl else (g("x") / z, g("y") / z)
                        return (g("fx") if i == 0 else g("fy")) * fn([g(k) for k in ks], nx, ny)[i] + (g("cx") if i == 0 else g("cy"))
                    fx.points(ctx, "projection", "project_point with %s distortion%s %s" % (n, how, "xy"[i]), out(o, i).t, grid(a, 12, over), want, wh)
                for at, px, py in ((2, 2, 1), (8, 3, 0), (11, 0, 3)):
                    hx, hy = (px - a["cx"]) / a["fx"], (py - a["cy"]) / a["fy"]
                    d = norm([F("undistort0", hx, hy), F("undistort1", hx, hy) * sg, E(sg)])
                    for i in range(3):
                        fx.points(ctx, "rays", "cast_ray(%d, %d) with %s distortion%s %s" % (px, py, n, how, "xyz"[i]), out(o, at + i).t, grid(a, 6, over),
                                  lambda e, i=i: concrete(d[i].t, e), wh)
                for i in range(3):
                    fx.check(ctx, "rays", "cast_ray with %s distortion%s origin %s" % (n, how, "xyz"[i]), out(o, 5 + i), E(0), wh)
            o, wh, a = go("camdof_%s_%s" % (n, b), models=UND)
            if o:
                over = dict({k: (-0.2, 0.2) for k in ks}, f=(0.01, 0.2), N=(1.2, 8), d=(1, 50), u=(0.05, 0.95), v=(0.05, 0.95))
                hx, hy = (2 - 1.5) / 3, (1 - 2.25) / 2
                dof(ctx, out, o, wh, a, grid(a, 8, over), "dof", " with %s distortion%s" % (n, how),
                    lambda e: (UNDX(hx, hy), UNDY(hx, hy) * sg, float(sg)))
    # ---------------------------------------------------------------- intrinsics
    o, wh, a = go("matrix")
    if o:
        for i, w in enumerate((a["fx"] * 0.25 + a["cx"], a["fy"] * 0.5 + a["cy"], a["f"], E(4), E(4))):
            fx.check(ctx, "intrinsics", "set_intrinsic_matrix %d" % i, out(o, i), w, wh)
    for nm, fxy, c0 in (("pitch1", lambda a: (a["f"] / a["a"], a["f"] / a["a"]), (2, 3)), ("pitch2", lambda a: (a["f"] / a["a"], a["f"] / a["b"]), None),
                        ("size1", lambda a: (a["f"] * 4 / a["a"], a["f"] * 4 / a["a"]), (2, 3)), ("size2", lambda a: (a["f"] * 4 / a["a"], a["f"] * 6 / a["b"]), None),
                        ("after", lambda a: (a["f"] / a["a"], a["f"] / a["b"]), None)):
        o, wh, a = go(nm)
        if o:
            p, q = fxy(a)
            cx, cy = c0 or (a["cx"], a["cy"])
            for i, w in enumerate((p * a["x"] + cx, q * a["y"] + cy, a["f"], E(4), E(6))):
                fx.check(ctx, "intrinsics", "%s %d" % (nm, i), out(o, i), w, wh, positive=[a[k].t for k in ("f", "a", "b") if k in a])
    o, wh, a = go("explicit_then_focal")
    if o:
        # pixel pitch f/fx stays; the new focal length rescales fx
        for i, w in enumerate((a["fx"] * a["g"] / a["f"] * a["x"] + a["cx"], a["fy"] * a["g"] / a["f"] * a["y"] + a["cy"], a["g"])):
            fx.check(ctx, "intrinsics", "set_focal_length after set_intrinsics %d" % i, out(o, i), w, wh, positive=[a[k].t for k in ("f", "fx", "fy", "g")])
    # ---------------------------------------------------------------- aperture
    pi = math.pi
    o, wh, a = go("stop")
    if o:
        over = {"f": (0.01, 0.3), "N": (1, 9)}
        fx.points(ctx, "aperture", "fstop() after set_fstop", out(o, 0).t, grid(a, 8, over), lambda e: e[a["N"].t], wh)
        fx.points(ctx, "aperture", "get_projected_aperture_area", out(o, 1).t, grid(a, 12, over), lambda e: pi / 4 * (e[a["f"].t] / e[a["N"].t]) ** 2 * abs(e[a["z"].t]) / math.sqrt(sum(e[a[k].t] ** 2 for k in "xyz")), wh)
    o, wh, a = go("diopt")
    if o:
        envs = [{a["d"].t: v} for v in (0.0, 0.5, 2.0, -3.0, 0.01)]
        fx.points(ctx, "focus", "get_diopters after set_diopters", out(o, 0).t, envs, lambda e: e[a["d"].t], wh)
        fx.points(ctx, "focus", "get_focus_distance after set_diopters", out(o, 1).t, envs, lambda e: 1 / e[a["d"].t] if e[a["d"].t] else float("inf"), wh)
    o, wh, a = go("focus")
    if o:
        envs = [{a["d"].t: v} for v in (0.5, 2.0, 100.0, float("inf"))]
        fx.points(ctx, "focus", "get_diopters after set_focus_distance", out(o, 0).t, envs, lambda e: 1 / e[a["d"].t], wh)
        fx.points(ctx, "focus", "get_focus_distance after set_focus_distance", out(o, 1).t, envs, lambda e: e[a["d"].t], wh)
    for nm in ("aper", "aper_area"):
        o, wh, a = go(nm)
        if not o:
            continue
        k = "d" if nm == "aper" else "q"
        envs = [dict(e) for e in grid(a, 24, {k: (0.1, 2), "u": (0, 1), "v": (0, 1)})]
        for u, v in ((0.5, 0.5), (0.5, 0.9), (0.9, 0.5), (0.25, 0.75), (0.25, 0.25), (0.1, 0.5), (0.5, 0.1)):
            envs.append({a[k].t: 0.7, a["u"].t: u, a["v"].t: v})
        dia = (lambda e: e[a["d"].t]) if nm == "aper" else (lambda e: math.sqrt(4 * e[a["q"].t] / pi))
        for i, w in enumerate((lambda e: pi * dia(e) ** 2 / 4, dia, lambda e: dia(e) / 2)):
            fx.points(ctx, "aperture", "%s of a circular aperture (%s)" % (("area", "diameter", "bounding radius")[i], nm), out(o, i).t, envs, w, wh)
        for i in range(2):
            fx.points(ctx, "aperture", "%s of an aperture sample (%s)" % ("xy"[i], nm), out(o, 3 + i).t, envs, lambda e, i=i: dia(e) / 2 * disk(e[a["u"].t], e[a["v"].t])[i], wh, atol=1e-6)
    o, wh, a = go("defocus")
    if o:
        envs = []
        for e in grid(a, 12, {"d": (0.5, 4), "f": (0.02, 0.2), "a": (1e-6, 4e-6), "b": (1e-6, 4e-6)}):
            for s in (1, -1):
                envs.append(dict(e, **{}) if s == 1 else dict(e, **{}))
                envs[-1][a["d"].t] *= s
        rad = lambda e: abs(e[a["d"].t]) * e[a["f"].t] * 0.005 / min(e[a["a"].t], e[a["b"].t])
        fx.points(ctx, "defocus", "radius of the blur in pixels", out(o, 0).t, envs, rad, wh)
        fx.points(ctx, "defocus", "a blur below half a pixel is none", out(o, 1).t,
                  [{a["d"].t: v, a["f"].t: 0.1, a["a"].t: 1e-5, a["b"].t: 1e-5} for v in (0.0, 0.0099, -0.0099, 0.0101, 1.0, -0.0101)], lambda e: float(rad(e) >= 0.5), wh)
    o, wh, a = go("rot")
    if o:
        from sa.alg import E as _E
        import math as _m
        q = a["q"].t
        for i, w in enumerate((lambda t: _m.cos(t) - 2 * _m.sin(t), lambda t: _m.sin(t) + 2 * _m.cos(t), lambda t: 3.0)):
            fx.points(ctx, "sensor rotation", "sensor_rotation applied to (1, 2, 3) [%d]" % i, out(o, i).t, [{q: v} for v in (0.0, 0.3, -1.2, 2.9)], lambda e: w(e[q]), wh)
    ctx.level = "static analysis: value graph of the camera through its public interface vs the pinhole and distortion models"


def tri(a, b, c):
    """Solid angle of a triangle (Van Oosterom and Strackee)."""
    n = [math.sqrt(sum(q * q for q in v)) for v in (a, b, c)]
    dot = lambda p, q: sum(x * y for x, y in zip(p, q))
    cr = (b[1] * c[2] - b[2] * c[1], b[2] * c[0] - b[0] * c[2], b[0] * c[1] - b[1] * c[0])
    return abs(2 * math.atan2(dot(a, cr), n[0] * n[1] * n[2] + dot(a, b) * n[2] + dot(a, c) * n[1] + dot(b, c) * n[0]))


def disk(u, v):
    """Shirley-Chiu concentric map of the unit square."""
    a, b = 2 * u - 1, 2 * v - 1
    if a * a > b * b:
        r, t = a, math.pi / 4 * (b / a)
    elif b:
        r, t = b, math.pi / 2 - math.pi / 4 * (a / b)
    else:
        return 0.0, 0.0
    return r * math.cos(t), r * math.sin(t)


def dof(ctx, out, o, wh, a, envs, kind, how, direction):
    """With depth of field the ray starts at a point of the aperture and meets the pinhole ray at the distance of focus."""
    g = lambda e, k: e[a[k].t]
    envs = list(envs) + [dict(envs[0], **{}) for _ in (0,)]
    envs[-1][a["d"].t] = float("inf")

    def origin(e):
        p = disk(g(e, "u"), g(e, "v"))
        r = g(e, "f") / g(e, "N") / 2
        return [r * p[0], r * p[1], 0.0] if kind == "dof" else [0.0] * 3

    def want(e):
        d = direction(e)
        if None in d:
            return None
        if math.isinf(g(e, "d")):
            v = list(d)
        else:
            x = [q * g(e, "d") for q in d] if kind == "dof" else list(d)
            v = [p - q for p, q in zip(x, origin(e))]
        n = math.sqrt(sum(q * q for q in v))
        return [q / n for q in v]
    nm = "with depth of field" if kind == "dof" else "without depth of field"
    for i in range(3):
        fx.points(ctx, "depth of field", "origin %s of a ray %s%s" % ("xyz"[i], nm, how), out(o, 5 + i).t, envs, lambda e, i=i: origin(e)[i], wh)
        fx.points(ctx, "depth of field", "direction %s of a ray %s%s" % ("xyz"[i], nm, how), out(o, 2 + i).t, envs, lambda e, i=i: (want(e) or [None] * 3)[i], wh, rel=2e-5, atol=1e-6)
