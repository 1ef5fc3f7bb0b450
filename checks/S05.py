"""S05: what a camera derives from its settings is always that of its present settings.

For every public way to change a camera, a witness builds a camera, makes use of everything it derives, changes the one
setting and observes; a second witness does the same and then has everything derived anew before it observes. The value
graphs of both observations have to agree (for all values where the graphs are equal, else at points).
"""
import random
from sa import fx
from sa import par
from sa import terms as tm
from sa import trace
from sa.concrete import concrete
from checks.M04 import undistort_model

FT = ("f",)
N = 40
# (what, parameters, code)
BASES = {
    "pinhole": ("", ""),
    "distorted": ("", "c.set_brown_conrady_distortion(BrownCoefficients(0.01, 0.02, 0.03, 0.004, 0.005));"),
    "explicit": ("float Fx, float Fy, float Cx, float Cy, float Fa", "c.set_intrinsics(Fx, Fy, Cx, Cy, Resolution{2, 2}, units::Meter(Fa));"),
    "blender": ("", "c.use_blender_convention();"),
}
BASES["own PSF"] = ("", "")  # (a PSF of one's own is no product of the aperture)
OWN = "c.set_psf<AiryDisk<S>>(units::Meter(0.1f), units::Meter(1e-5f), units::Meter(1e-5f), units::Meter(0.01f), 4, 2);"
CHANGES = {
    "set_focal_length": ("float a", "c.set_focal_length(units::Meter(a));"),
    "set_brown_conrady_distortion": ("", "c.set_brown_conrady_distortion(BrownCoefficients(0.03, 0.01, 0.02, 0.002, 0.001));"),
    "set_opencv_distortion": ("", "OpenCVCoefficients k; k.k1 = 0.03; c.set_opencv_distortion(k);"),
    "set_owen_distortion": ("", "OwenCoefficients k; k.e2 = 0.03; c.set_owen_distortion(k);"),
    "set_distortion": ("", "c.template set_distortion<BrownDistortion<S>>(BrownCoefficients(0.03, 0.01, 0.02, 0.002, 0.001));"),
    "delete_distortion": ("", "c.delete_distortion();"),
    "set_sensor": ("float a, float b", "SimpleSensorConfig<S> k; k.resolution = Resolution{3, 2}; k.pitch_x = units::Meter(1e-4f * a); k.pitch_y = units::Meter(1e-4f * b); c.template set_sensor<SimpleSensor<S>>(k);"),
    "configure_sensor_from_pitch": ("float a, float b, float cx, float cy", "c.configure_sensor_from_pitch(Resolution{3, 2}, units::Meter(1e-4f * a), units::Micrometer(1e2f * b), cx, cy);"),
    "configure_sensor_from_size": ("float a, float b, float cx, float cy", "c.configure_sensor_from_size(Resolution{3, 2}, units::Meter(1e-2f * a), units::Millimeter(1e1f * b), cx, cy);"),
    "configure_sensor_from_pitch (square, centred)": ("float a", "c.configure_sensor_from_pitch(Resolution{3, 2}, units::Meter(1e-4f * a));"),
    "configure_sensor_from_size (square, centred)": ("float a", "c.configure_sensor_from_size(Resolution{3, 2}, units::Meter(1e-2f * a));"),
    "set_intrinsics": ("float a, float b, float cx, float cy, float f", "c.set_intrinsics(a, b, cx, cy, Resolution{3, 2}, units::Meter(f));"),
    "set_intrinsic_matrix": ("float a, float b, float cx, float cy, float f", "Mat3<float> K(1.0f); K[0][0] = a; K[1][1] = b; K[2][0] = cx; K[2][1] = cy; c.set_intrinsic_matrix(K, Resolution{3, 2}, units::Meter(f));"),
    "set_aperture": ("float a", "c.template set_aperture<CircularAperture<S>>(units::Meter(0.1f * a));"),
    "set_fstop": ("float a", "c.set_fstop(a);"),
    "set_focus_distance": ("float a", "c.set_focus_distance(units::Meter(a));"),
    "set_diopters": ("float a", "c.set_diopters(units::Diopter(a));"),
    "use_blender_convention": ("", "c.use_blender_convention(true);"),
    "use_blender_convention(false)": ("", "c.use_blender_convention(false);"),
    "use_aperture_psf": ("", "c.use_aperture_psf(5, 3);"),
}
MAIN = ("cast_ray 0", "cast_ray 1", "cast_ray 2", "pixel_radiance_to_power(1, 1)", "pixel_radiance_to_power(0, 0)", "in_fov", "project_point x", "project_point y",
        "resolution x", "resolution y", "frame buffer width", "PSF focal length", "PSF pitch x", "PSF pitch y", "PSF radius", "PSF banks", "PSF aperture",
        "defocus diopters", "defocus focal length", "defocus pitch x", "defocus pitch y", "defocus aperture")


def text():
    t = ['#include <array>', '#include <vector>', '#include "huira/huira.hpp"', "using namespace huira;", "using S = RGB;", "using C = CameraModel<S>;", "using Str = DeterministicSampler<float>;", "using A = std::array<double, %d>;" % N,
         "namespace verif_w {",
         "double stamp(const void*, int);",
         "template <class T> void again(T& c, bool psf) {",
         "  if constexpr (requires { c.compute_intrinsics_(); }) c.compute_intrinsics_();",
         "  if constexpr (requires { c.compute_distortion_field_(); }) if (c.distortion_) c.compute_distortion_field_();",
         "  if constexpr (requires { c.compute_frustum_(); }) c.compute_frustum_();",
         "  if constexpr (requires { c.compute_pixel_solid_angles_(); }) c.compute_pixel_solid_angles_();",
         "  if (psf) c.use_aperture_psf(5, 3);",
         "  units::Meter px(c.sensor_->pixel_pitch().x); units::Meter py(c.sensor_->pixel_pitch().y);",
         "  c.aperture_->build_defocus_kernel(c.get_diopters(), c.focal_length(), px, py, 16);",
         "}",
         "A observe(const C& c, const void* own, float x, float y, float z) { A o{}; auto r = c.cast_ray(1, 0); o[0] = r.direction().x; o[1] = r.direction().y; o[2] = r.direction().z;",
         "  o[3] = c.pixel_radiance_to_power(1, 1); o[4] = c.pixel_radiance_to_power(0, 0); o[5] = c.in_fov(Vec3<float>{x, y, z});",
         "  Pixel p = c.project_point(Vec3<float>{x, y, z}); o[6] = p[0]; o[7] = p[1]; o[8] = c.resolution().x; o[9] = c.resolution().y; o[10] = c.make_frame_buffer().width();",
         "  for (int i = 0; i < 6; ++i) o[static_cast<std::size_t>(11 + i)] = stamp(c.psf_.get(), i);",
         "  for (int i = 0; i < 5; ++i) o[static_cast<std::size_t>(17 + i)] = stamp(c.aperture_.get(), i);",
         "  o[22] = c.focal_length().to_si(); o[23] = c.get_projected_aperture_area(Vec3<float>{0, 0, 1}); o[24] = c.get_focus_distance().to_si(); o[25] = c.is_blender_convention(); o[26] = c.resolution().x; o[27] = c.resolution().y;",
         "  o[28] = c.sensor_->pixel_pitch().x; o[29] = c.sensor_->pixel_pitch().y; Pixel q = c.project_point(Vec3<float>{0, 0, c.is_blender_convention() ? -1.f : 1.f}); o[30] = q[0]; o[31] = q[1];",
         "  Str s(0.5f, Vec2<float>{0.2f, 0.3f}); o[32] = c.cast_ray(Pixel{1, 0}, s).origin().x != 0; o[33] = c.has_psf() ? c.psf_.get() == own : false; o[34] = c.veiling_alpha_; o[35] = c.scatter_fraction_;",
         "  float sg = c.is_blender_convention() ? -1.f : 1.f; Pixel e = c.project_point(Vec3<float>{1, sg, sg}); o[36] = e[0] - q[0]; o[37] = e[1] - q[1];",
         "  return o; }"]
    ws = []
    for bi, (b, (bp, bc)) in enumerate(BASES.items()):
        for ci, (k, (cp, cc)) in enumerate(CHANGES.items()):
            ps = ", ".join(q for q in ("float f0, float p0, float q0, float n0, float d0", bp, cp, "float x, float y, float z") if q)
            pre = "C c; c.configure_sensor_from_pitch(Resolution{2, 2}, units::Meter(1e-4f * p0), units::Micrometer(1e2f * q0)); c.set_focal_length(units::Meter(f0)); %s c.set_fstop(n0); c.set_focus_distance(units::Meter(d0)); %s" % (bc, "" if k == "use_aperture_psf" else OWN if b == "own PSF" else "c.use_aperture_psf(5, 3);")
            pre += " c.enable_depth_of_field(); c.set_veiling_glare(0.25f); c.set_harvey_shack_scatter(0.125f, 2.0f); const void* own = %s;" % ("c.psf_.get()" if b == "own PSF" else "nullptr")
            for q, body in (("i", cc), ("r", cc + " again(c, %s);" % ("false" if b == "own PSF" else "true"))):
                t.append("A %s_%d_%d(%s) { %s %s return observe(c, own, x, y, z); }" % (q, bi, ci, ps, pre, body))
            if k == "set_focal_length":
                t.append("A b_%d(%s) { %s return observe(c, own, x, y, z); }" % (bi, ps, pre))
            ws.append((bi, ci, b, k))
    t.append("}")
    return "\n".join(t), ws


RANGE = {"f0": (0.01, 0.2), "Fa": (0.01, 0.2), "f": (0.01, 0.2), "n0": (1.2, 8), "d0": (1, 50), "Fx": (3, 9), "Fy": (3, 9), "Cx": (0.5, 1.5), "Cy": (0.5, 1.5), "cx": (0.5, 1.5), "cy": (0.5, 1.5),
         "x": (-1, 1), "y": (-1, 1), "z": (-3, 3)}
SETTINGS = ("focal length", "aperture area", "focus distance", "convention", "width", "height", "pitch x", "pitch y", "principal point x", "principal point y", "depth of field", "own PSF", "veiling glare", "scatter")
SENSOR = ("width", "height", "pitch x", "pitch y", "principal point x", "principal point y")
NAMED = {"use_aperture_psf": ("own PSF",), "set_focal_length": ("focal length",), "set_sensor": SENSOR, "configure_sensor_from_pitch": SENSOR, "configure_sensor_from_size": SENSOR,
         "set_intrinsics": SENSOR + ("focal length",), "set_intrinsic_matrix": SENSOR + ("focal length",), "set_aperture": ("aperture area",), "set_fstop": ("aperture area",),
         "set_focus_distance": ("focus distance",), "set_diopters": ("focus distance",), "use_blender_convention": ("convention",)}
EFFECT = {"set_focal_length": {"focal length": "a"},
          "set_sensor": {"width": 3, "height": 2, "pitch x": "1e-4 * a", "pitch y": "1e-4 * b"},
          "configure_sensor_from_pitch": {"width": 3, "height": 2, "pitch x": "1e-4 * a", "pitch y": "1e-4 * b", "principal point x": "cx", "principal point y": "cy"},
          "configure_sensor_from_size": {"width": 3, "height": 2, "pitch x": "1e-2 * a / 3", "pitch y": "1e-2 * b / 2", "principal point x": "cx", "principal point y": "cy"},
          "configure_sensor_from_pitch (square, centred)": {"width": 3, "height": 2, "pitch x": "1e-4 * a", "pitch y": "1e-4 * a", "principal point x": 1.5, "principal point y": 1},
          "configure_sensor_from_size (square, centred)": {"width": 3, "height": 2, "pitch x": "1e-2 * a / 3", "pitch y": "1e-2 * a / 3", "principal point x": 1.5, "principal point y": 1},
          "set_intrinsics": {"width": 3, "height": 2, "principal point x": "cx", "principal point y": "cy", "focal length": "f", "pitch x": "f / a", "pitch y": "f / b"},
          "set_intrinsic_matrix": {"width": 3, "height": 2, "principal point x": "cx", "principal point y": "cy", "focal length": "f", "pitch x": "f / a", "pitch y": "f / b"},
          "set_aperture": {"aperture area": "3.14159265358979 * (0.1 * a) ** 2 / 4"},
          "set_fstop": {},
          "set_focus_distance": {"focus distance": "a"}, "set_diopters": {"focus distance": "1 / a"},
          "use_blender_convention": {"convention": 1}, "use_blender_convention(false)": {"convention": 0}}


def grid(name, rnd):
    return rnd.uniform(*RANGE.get(name, (0.5, 3)))


def run(ctx):
    src, ws = text()
    W = fx.Wit(ctx, "w_s05.cpp", src, flags=["-fno-access-control"])
    P = W.P
    STAMP = lambda obj, i: tm.mk("glob", "stamp", obj, i)

    def unit(I, st, a, ti):
        """The magnitude of a quantity (or the number itself)."""
        if I.is_val(ti):
            return a
        rec = P.ty(P.deref_type(ti))["rec"]
        fs = [q for q in P.records[rec]["fields"]]
        return I.load(st, tm.fld(a, fs[0]["d"]), FT)

    def members(I, st, this):
        rec = I.dyn.get(this)
        out = []
        todo = [rec]
        while todo:
            r = P.records.get(todo.pop())
            if not r:
                continue
            for q in r.get("fields", ()):
                if I.is_val(q["t"]) and P.ty(q["t"])["s"] in ("float", "double"):
                    out.append(I.load(st, tm.fld(this, q["d"]), FT))
            todo += [b["t"] if isinstance(b, dict) else b for b in r.get("bases", ())]
        return out

    def make_psf(I, n, f, this, args, argn, on, st, fr):
        k = tm.mk("new", "psf", n, len(st.store))
        vals = [unit(I, st, a, p["t"]) for a, p in zip(args, f.params)]
        ms = members(I, st, this)
        for i, v in enumerate(vals + [ms[0] if ms else tm.c(0)]):
            st.store[STAMP(k, i)] = v
        return I.rec_result(n, st, fr, tm.settype(k, ("p",)))

    def defocus(I, n, f, this, args, argn, on, st, fr):
        vals = [unit(I, st, a, p["t"]) for a, p in zip(args[:4], f.params)]
        ms = members(I, st, this)
        for i, v in enumerate(vals + [ms[0] if ms else tm.c(0)]):
            st.store[STAMP(this, i)] = v
        return None

    def stamp(I, n, f, this, args, argn, on, st, fr):
        return st.store.get(STAMP(args[0], args[1].a[0] if args[1].op == "c" else args[1]), tm.settype(tm.mk("nostamp", args[0], args[1]), FT))

    def get(field):
        def m(I, n, f, this, args, argn, on, st, fr):
            i = 3 if field == "radius" else 4
            return st.store.get(STAMP(this, i)) or NotImplemented
        return m
    models = {"huira::%s::undistort" % c: undistort_model() for c in ("Distortion", "BrownDistortion", "OpenCVDistortion", "OwenDistortion")}
    models["huira::CircularAperture::make_psf"] = (make_psf, True)
    models["huira::Aperture::build_defocus_kernel"] = (defocus, True)
    models["huira::PSF::get_radius"] = (get("radius"), True)
    models["huira::PSF::get_banks"] = (get("banks"), True)
    models["huira::PSF::build_polyphase_cache"] = (lambda *a: None, True)
    models["verif_w::stamp"] = (stamp, True)
    def one(job):
        """The comparisons of one change: [(rule, where, what, message or None, site)], or what kept it from being decided."""
        bi, ci, b, k = job
        o, r = (W.run("%s_%d_%d" % (q, bi, ci), models=models, unroll=12, budget=8000000) for q in "ir")
        base = W.run("b_%d" % bi, models=models, unroll=12, budget=8000000)
        name = k.split(" ")[0].split("(")[0]
        f = next((f for f in P.defs if f.n == name and (f.clskey or "") == "huira::CameraModel" and f.has_body), None)
        where = f.where if f is not None else "CameraModel::" + name
        site = "%s/%s" % (k, b)
        if o.stopped or r.stopped or base.stopped:
            return None
        if not (o.ok and r.ok and base.ok):
            return [("coherence", where, k, "%s on a %s camera never returns" % (k, b), site)]
        out = []
        rnds = [random.Random(q) for q in range(12)]
        envs = [{p["n"]: grid(p["n"], rnd) for p in o.fn.params} for rnd in rnds]

        def at(w, i):
            t = w.load(tm.el(w.r.val, tm.c(i)))
            return getattr(t, "t", t), w.fn.params

        def agree(rule, what, x, y, say):
            (a, pa), (c, pc) = x, y
            ids = {p["n"]: p["d"] for p in pa}
            if trace.rename(c, {p["d"]: ids[p["n"]] for p in pc if p["n"] in ids}, {}) is a:
                out.append((rule, where, what, None, site))
                return
            n = 0
            for e in envs:
                p = concrete(a, {tm.mk("par", q["d"]): e[q["n"]] for q in pa})
                q = concrete(c, {tm.mk("par", q["d"]): e.get(q["n"], 1.0) for q in pc})
                if p is None or q is None:
                    continue
                n += 1
                if not (p == q or (p != p and q != q) or abs(p - q) <= 1e-5 * max(abs(p), abs(q)) + 1e-9):
                    out.append((rule, where, what, say % (p, q), "%s/%s" % (site, what)))
                    return
            out.append((rule, where, what, None, site) if n else None)
        for i, what in enumerate(MAIN):
            agree("coherence", "%s after %s on a %s camera" % (what, k, b), at(o, i), at(r, i),
                  "after %s on a %s camera, %s is stale: %%.6g, but %%.6g when derived from the present settings" % (k, b, what))
        for i, what in enumerate(SETTINGS):
            if what not in NAMED.get(k, NAMED.get(name, ())):
                agree("only what it names", "%s after %s on a %s camera" % (what, k, b), at(o, len(MAIN) + i), at(base, len(MAIN) + i),
                      "%s on a %s camera changes the %s: to %%.6g from %%.6g" % (k, b, what))
        def number(i, e):
            t, pa = at(o, i)
            return concrete(t, {tm.mk("par", q["d"]): e[q["n"]] for q in pa})
        value = {w: len(MAIN) + i for i, w in enumerate(SETTINGS)}
        want = {w: (lambda e, v=v: eval(v, {}, e) if isinstance(v, str) else v) for w, v in EFFECT.get(k, {}).items()}
        if b != "distorted" and "_distortion" not in k and not (b == "explicit" and k == "set_sensor"):
            for j, (fx_, px_) in enumerate((("fx", "pitch x"), ("fy", "pitch y"))):
                want[fx_] = lambda e, px_=px_: number(value["focal length"], e) / number(value[px_], e)
        for w, v in want.items():
            bad = None
            n = 0
            for e in envs:
                g = number(value[w] if w in value else 36 + ("fx", "fy").index(w), e)
                try:
                    x = v(e)
                except TypeError:
                    continue
                if g is None or x is None:
                    continue
                n += 1
                if not (g == x or abs(g - x) <= 2e-5 * max(abs(g), abs(x))):
                    bad = "after %s on a %s camera, %s is %.6g instead of %.6g%s" % (k, b, w, g, x, " (focal length / pitch)" if w in ("fx", "fy") else "")
                    break
            out.append(("takes effect", where, w, bad, "%s/%s" % (site, w)) if n else None)
        return out
    done = 0
    for (bi, ci, b, k), res in zip(ws, par.each(one, ws)):
        if res is None:
            ctx.count("undetermined")
            ctx.notes.append("%s on a %s camera: not followed to its end" % (k, b))
            continue
        done += 1
        ctx.count("changes")
        ctx.sample("%s, %s camera" % (k, b))
        for x in res:
            if x is None:
                ctx.count("undetermined")
            else:
                rule, where, what, msg, site = x
                ctx.ob(msg is None, rule, where, msg, site)
    ctx.require(done, "camera changes")
    ctx.level = "static analysis: value graph of every camera observation after each change vs the same with everything derived anew"
