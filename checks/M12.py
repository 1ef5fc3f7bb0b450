"""M12: a pixel averages its samples' radiance, each path weighted as it is sampled.

Witnesses hand the path tracer a script - what each ray meets, what the lights, materials and the sky answer, all symbolic -
through specialisations of the members it asks, and follow it with the value-graph interpreter; the graph of every frame buffer
channel is compared pointwise with the estimator written down here. Combining the powers, veiling glare, the interpolation in
time and the weights are treated in the same way.
"""
import math
import random
from sa import fx
from sa.concrete import concrete
from sa.terms import mk, c

T = ["t%d" % i for i in range(6)]
AT = {"wx": 0, "wy": 1, "wz": 2, "L0": 3, "L1": 4, "L2": 5, "lp": 6, "lq": 7, "ld": 8, "T0": 9, "T1": 10, "T2": 11, "f0": 12, "f1": 13, "f2": 14, "bp": 15, "bx": 16, "by": 17, "bz": 18,
      "v0": 19, "v1": 20, "v2": 21, "bq": 22, "e0": 23, "e1": 24, "e2": 25, "dx": 26, "dy": 27, "dz": 28, "g0": 29, "g1": 30, "g2": 31, "nx": 32, "ny": 33, "nz": 34, "a0": 35, "a1": 36, "a2": 37, "op": 38, "cl": 39, "pw": 40, "tr": 41}
PRE = r'''
#include <tbb/parallel_for.h>
#include <tbb/blocked_range.h>
namespace tbb { template <class R, class F> void verif_for(const R& r, const F& f) { f(r); } }
#define parallel_for verif_for
#include "huira/core/types.hpp"
#include <glm/gtc/quaternion.hpp>
namespace glm {
inline qua<float, defaultp> quat_cast(const mat<3, 3, float, defaultp>& m)
{
    float w = std::sqrt(1.f + m[0][0] + m[1][1] + m[2][2]) / 2.f, k = 1.f / (4.f * w);
    return qua<float, defaultp>(w, (m[1][2] - m[2][1]) * k, (m[2][0] - m[0][2]) * k, (m[0][1] - m[1][0]) * k);
}
inline qua<float, defaultp> slerp(const qua<float, defaultp>& x, const qua<float, defaultp>& y, float a)
{
    float d = x.w * y.w + x.x * y.x + x.y * y.y + x.z * y.z, g = d < 0.f ? -1.f : 1.f, r = 1.f - a, q = a;
    if (d * g < 0.99999f) {
        float h = std::acos(d * g);
        r = std::sin((1.f - a) * h) / std::sin(h);
        q = std::sin(a * h) / std::sin(h);
    }
    return qua<float, defaultp>(r * x.w + q * g * y.w, r * x.x + q * g * y.x, r * x.y + q * g * y.y, r * x.z + q * g * y.z);
}
}
#include "huira/huira.hpp"
using namespace huira;
namespace verif_s {
inline int hits, us, kind[8], delta;
inline float t[8], u[64], p[64];
inline float dir[8][3], org[8][3], env[2], far_;
inline float lamp[6];
}
namespace huira {
namespace s = verif_s;
inline RGB verif_rgb(int i) { return RGB{s::p[i], s::p[i + 1], s::p[i + 2]}; }
inline Vec3<float> verif_v3(int i) { return Vec3<float>{s::p[i], s::p[i + 1], s::p[i + 2]}; }
template <> float RandomSampler<float>::get_1d() { return s::u[s::us++]; }
template <> HitRecord SceneView<RGB>::intersect(const Ray<RGB>& ray, float, unsigned int) const
{
    HitRecord h;
    int i = s::hits++;
    s::dir[i][0] = ray.direction().x; s::dir[i][1] = ray.direction().y; s::dir[i][2] = ray.direction().z;
    if (s::kind[i] == 0) { return h; }
    h.t = s::t[i];
    h.inst_id = s::kind[i] == 2 ? 1u : 0u;
    h.geom_id = static_cast<unsigned int>(7 + i);
    return h;
}
template <> RGB SceneView<RGB>::evaluate_transmittance(const Ray<RGB>&, float far, const MediumStack<RGB>&, RandomSampler<float>&, float) const { s::far_ = far; return verif_rgb(9); }
template <> Interaction<RGB> SceneView<RGB>::resolve_hit(const Ray<RGB>& ray, const HitRecord&) const
{
    Interaction<RGB> is{};
    is.position = Vec3<float>{1.f, 2.f, 3.f};
    is.normal_g = Vec3<float>{0.f, 0.f, 1.f};
    is.normal_s = Vec3<float>{0.f, 0.f, 1.f};
    is.wo = -ray.direction();
    return is;
}
template <> Ray<RGB> CameraModel<RGB>::cast_ray(const Pixel&, Sampler<float>&) const { return Ray<RGB>(Vec3<float>{0.f, 0.f, 0.f}, verif_v3(26)); }
template <> units::Second SceneView<RGB>::duration() const { return units::Second(1.0); }
template <> void CameraModel<RGB>::readout(FrameBuffer<RGB>&, units::Second) const {}
template <> float CameraModel<RGB>::pixel_radiance_to_power(int, int) const { return s::p[40]; }
template <> template <> RGB Image<RGB>::sample_bilinear<WrapMode::Repeat>(float a, float b) const { s::env[0] = a; s::env[1] = b; return verif_rgb(29); }
template <> MaterialEval<RGB> Material<RGB>::evaluate(const Interaction<RGB>& is) const
{
    MaterialEval<RGB> e{};
    e.isect = is;
    e.isect.normal_s = verif_v3(32);
    e.params.albedo = verif_rgb(35);
    e.params.transmission = RGB{s::p[41]};
    e.params.opacity = s::p[38];
    return e;
}
template <> RGB Material<RGB>::bsdf_eval(const Vec3<float>&, const Vec3<float>&, const MaterialEval<RGB>&) const { return verif_rgb(12); }
template <> float Material<RGB>::bsdf_pdf(const Vec3<float>&, const Vec3<float>&, const MaterialEval<RGB>&) const { return s::p[15]; }
template <> BSDFSample<RGB> Material<RGB>::bsdf_sample(const Vec3<float>&, const MaterialEval<RGB>&, float, float) const
{
    BSDFSample<RGB> b{};
    b.wi = verif_v3(16); b.value = verif_rgb(19); b.pdf = s::p[22]; b.is_delta = s::delta != 0;
    return b;
}
struct VerifLight : Light<RGB> {
    std::optional<LightSample<RGB>> sample_li(const Interaction<RGB>&, const Transform<float>&, Sampler<float>&) const override
    {
        LightSample<RGB> l{};
        l.wi = verif_v3(0); l.Li = verif_rgb(3); l.distance = s::p[8]; l.pdf = s::p[6];
        return l;
    }
    float pdf_li(const Interaction<RGB>&, const Transform<float>&, const Vec3<float>&) const override { return s::p[7]; }
    RGB radiance(const Vec3<float>& p, const Vec3<float>& d) const override { for (int i = 0; i < 3; ++i) { s::lamp[i] = p[i]; s::lamp[3 + i] = d[i]; } return verif_rgb(23); }
    RGB irradiance_at(const Vec3<float>&, const Transform<float>&) const override { return RGB{0}; }
    LightType get_type() const override { return LightType::Sphere; }
};
}
namespace verif_w {
using A = std::array<double, 48>;
'''


# name: (what the rays meet: 0 nothing, 1 a surface, 2 a light; samples; bounces; lights; delta; fixed values)
WAYS = {
    "empty": ([0], 1, 3, 1, 0, {}),
    "lamp": ([2], 1, 3, 1, 0, {}),
    "surface": ([1, 0], 1, 1, 1, 0, {}),
    "surface_env": ([1, 0], 1, 3, 1, 0, {}),
    "surface_lamp": ([1, 2], 1, 3, 1, 0, {}),
    "surface_two_lamps": ([1, 2], 1, 3, 2, 0, {}),
    "mirror_lamp": ([1, 2], 1, 3, 1, 1, {"f0": 0.0, "f1": 0.0, "f2": 0.0, "bp": 0.0}),
    "no_light": ([1, 0], 1, 3, 0, 0, {}),
    "back_light": ([1, 0], 1, 3, 1, 0, {"wz": -0.5}),
    "through": ([1, 0], 1, 3, 1, 0, {"wz": -0.5, "tr": 0.4}),
    "shadow": ([1, 0], 1, 3, 1, 0, {"T0": 0.0, "T1": 0.0, "T2": 0.0}),
    "no_direction": ([1, 0], 1, 3, 1, 0, {"bq": 0.0}),
    "twice": ([1, 1, 0], 1, 3, 1, 0, {}),
    "twice_lamp": ([1, 1, 2], 1, 3, 1, 0, {}),
    "clamped": ([1, 1, 0], 1, 3, 1, 0, {"cl": 0.02}),
    "veil": ([1, 0], 1, 1, 1, 0, {"op": 0.3, "u": 0.5}),
    "veil_lamp": ([1, 2], 1, 1, 1, 0, {"op": 0.3, "u": 0.5}),
    "veiled_surface": ([1, 0], 1, 2, 1, 0, {"op": 0.7, "u": 0.5}),
    "two_samples": ([1, 0, 0], 2, 2, 1, 0, {}),
    "three_samples": ([0, 1, 1], 3, 1, 1, 0, {}),
    "early": ([0] * 6, 6, 2, 1, 0, {"dynamic": 1}),
    "early_surface": ([1] * 6, 6, 1, 0, 0, {"dynamic": 1}),
    "deep": ([1, 1, 1, 1, 1, 0], 1, 5, 1, 0, {"deep": 1}),
}
TIMES = (0.0, 0.15, 0.5, 0.625, 0.9, 1.0)
CHANNELS = ["received power", "directly received power", "indirectly received power", "albedo"]


def text():
    t = [PRE, "struct VerifRenderer : Renderer<RGB> { Image<RGB> path_trace_(SceneView<RGB>&, FrameBuffer<RGB>&) override { Image<RGB> m(2, 1, RGB{0}); m[0] = verif_rgb(0); m[1] = verif_rgb(3); return m; }"
         " Image<RGB> render_unresolved_(SceneView<RGB>&, FrameBuffer<RGB>&) override { Image<RGB> m(2, 1, RGB{0}); m[0] = verif_rgb(6); m[1] = verif_rgb(9); return m; } };"]
    params = ", ".join("float %s" % n for n in T + list(AT) + ["u"])
    for name, (kinds, spp, bounces, lights, delta, fixed) in WAYS.items():
        b = ["A o{};", "verif_s::hits = 0; verif_s::us = 0; verif_s::delta = %d;" % delta]
        b += ["verif_s::kind[%d] = %d;" % (i, k) for i, k in enumerate((kinds + [0] * 8)[:8])]
        b += ["verif_s::t[%d] = t%d;" % (i, i) for i in range(6)]
        b += ["verif_s::p[%d] = %s;" % (i, n) for n, i in AT.items()]
        b += ["for (int i = 0; i < 64; ++i) { verif_s::u[i] = u; }"]
        b += ["v.camera_model_->convolve_psf_ = false;", "v.temporal_samples_ = std::vector<Time>{Time::from_et(0.0)};", "v.lights_.clear();"]
        b += ["v.lights_.push_back(LightInstance<RGB>{std::make_shared<VerifLight>(), std::vector<Transform<float>>(1)});"] * lights
        b += ["v.instance_mappings_.clear();", "v.instance_mappings_.push_back({GeometryType::Primitive, 0, 0, 0});", "v.instance_mappings_.push_back({GeometryType::Light, 0, 0, 0});"]
        b += ["v.primitives_.clear();", "v.primitives_.push_back(PrimitiveBatch<RGB>{std::make_shared<Primitive<RGB>>(), {}});"]
        b += ["FrameBuffer<RGB> fb(Resolution{1, 1});", "fb.enable_depth(); fb.enable_camera_normals(); fb.enable_albedo(); fb.enable_geometry_ids(); fb.enable_received_direct_power(); fb.enable_received_indirect_power(); fb.enable_received_power();"]
        b += ["r.spp_ = %d; r.max_bounces_ = %d; r.indirect_clamp_threshold_ = cl; r.dynamic_sampling_ = %s; r.min_spp_ = 2; r.variance_threshold_ = 0.001f;" % (spp, bounces, "true" if "dynamic" in fixed else "false")]
        b += ["Image<RGB> im = r.Renderer<RGB>::path_trace_(v, fb);"]
        for i in range(3):
            b += ["o[%d] = im(0, 0)[%d];" % (i, i), "o[%d] = fb.received_direct_power()(0, 0)[%d];" % (3 + i, i), "o[%d] = fb.received_indirect_power()(0, 0)[%d];" % (6 + i, i),
                  "o[%d] = fb.albedo()(0, 0)[%d];" % (9 + i, i)]
        b += ["o[12] = fb.depth()(0, 0); o[13] = static_cast<double>(fb.geometry_ids()(0, 0)); o[14] = verif_s::env[0]; o[15] = verif_s::env[1]; o[16] = verif_s::far_;"]
        b += ["o[%d] = verif_s::dir[1][%d];" % (17 + i, i) for i in range(3)]
        b += ["o[%d] = fb.camera_normals()(0, 0)[%d];" % (21 + i, i) for i in range(3)]
        b += ["o[%d] = verif_s::lamp[%d];" % (24 + i, i) for i in range(6)]
        b += ["o[20] = verif_s::hits; return o;"]
        t.append("A %s(Renderer<RGB>& r, SceneView<RGB>& v, %s) { %s }" % (name, params, " ".join(b)))
    for name, on in (("glare", "true"), ("no_glare", "false")):
        b = ["A o{};"] + ["verif_s::p[%d] = %s;" % (i, n) for n, i in AT.items()]
        b += ["VerifRenderer r; FrameBuffer<RGB> fb(Resolution{2, 1}); fb.enable_received_power(); v.camera_model_->sensor_->config_.resolution.width = 2; v.camera_model_->sensor_->config_.resolution.height = 1; v.camera_model_->veiling_glare_enabled_ = %s; v.camera_model_->veiling_alpha_ = u; r.render(v, fb);" % on]
        b += ["for (int i = 0; i < 6; ++i) { o[i] = fb.received_power()[i / 3][i % 3]; } return o;"]
        t.append("A %s(SceneView<RGB>& v, %s) { %s }" % (name, params, " ".join(b)))
    t.append("A weight(float f, float g) { A o{}; o[0] = power_heuristic(f, g); o[1] = power_heuristic(g, f); return o; }")
    for n in (1, 2, 3):
        q = ", ".join("float %s%d" % (x, i) for i in range(n) for x in ("x", "y", "z", "a", "b", "c", "d"))
        b = "A o{}; std::vector<Transform<float>> ts; " + " ".join(
            "{ Transform<float> k; k.position = Vec3<float>{x%d, y%d, z%d}; k.rotation = Rotation<float>::from_local_to_parent(Quaternion<float>{a%d, b%d, c%d, d%d}); ts.push_back(k); }" % ((i,) * 7) for i in range(n))
        b += " auto m = interpolate_transform(ts, t); auto q = m.rotation.local_to_parent_quaternion(); o[0] = m.position.x; o[1] = m.position.y; o[2] = m.position.z; o[3] = q.w; o[4] = q.x; o[5] = q.y; o[6] = q.z; return o;"
        for j, u in enumerate(TIMES):
            t.append("A pose%d_%d(%s) { const float t = %sf; %s }" % (n, j, q, u, b))
        q = ", ".join("float r%d, float g%d, float b%d" % (i, i, i) for i in range(n))
        b = "A o{}; std::vector<RGB> irr; %s RenderItem<RGB> it(arc, irr, 1); RGB v = it.interpolate_irradiances(t); o[0] = v[0]; o[1] = v[1]; o[2] = v[2]; o[3] = it.max_irradiance(); return o;" % " ".join("irr.push_back(RGB{r%d, g%d, b%d});" % (i, i, i) for i in range(n))
        for j, u in enumerate(TIMES):
            t.append("A light%d_%d(TrajectoryArc& arc, %s) { const float t = %sf; %s }" % (n, j, q, u, b))
    t.append("}")
    return "\n".join(t) + "\n"


def weight(f, g):
    return 1.0 if math.isinf(f) else f * f / (f * f + g * g)


def estimate(e, kinds, spp, bounces, lights, delta, fixed, survive=None):
    """The pixel by the book: (received, direct, indirect, albedo, depth)."""
    V = lambda n: [e[n + str(i)] for i in range(3)]
    L, f, v, E, g, alb, Tr = V("L"), V("f"), V("v"), V("e"), V("g"), V("a"), V("T")
    n = (e["nx"], e["ny"], e["nz"])
    at = 0
    D, I, A, depth = [0.0] * 3, [0.0] * 3, [0.0] * 3, math.inf
    taken = 0
    for s in range(spp):
        th, d, ind, bounce, pdf = [1.0] * 3, [0.0] * 3, [0.0] * 3, 0, None
        while bounce < bounces:
            k, t = (kinds + [0] * 8)[at], e["t%d" % min(at, 5)]
            at += 1
            to = d if bounce == 0 else ind
            if k == 0:
                for i in range(3):
                    to[i] += th[i] * g[i]
                break
            if k == 2:
                w = 1.0 if bounce == 0 else weight(math.inf if delta else pdf, e["lq"])
                for i in range(3):
                    to[i] += th[i] * E[i] * w
                break
            if e["op"] < 1 and e["u"] > e["op"]:
                continue
            if bounce == 0:
                depth = min(depth, t)
                A = [x + y for x, y in zip(A, alb)]
            if (e["wz"] > 0 or e["tr"] > 0) and max(Tr) > 0:
                cos = max(0.0, sum(x * y for x, y in zip(n, (e["wx"], e["wy"], e["wz"]))))
                for i in range(3):
                    to[i] += lights * th[i] * L[i] / e["lp"] * f[i] * cos * weight(e["lp"], e["bp"]) * Tr[i]
            if e["bq"] <= 0:
                break
            pdf = e["bq"]
            th = [x * y for x, y in zip(th, v)]
            if bounce >= 3 and survive is not None:
                p = survive(th)
                if e["u"] > p:
                    break
                th = [x / p for x in th]
            bounce += 1
        m = max(ind)
        if m > e["cl"]:
            ind = [x * e["cl"] / m for x in ind]
        D = [x + y for x, y in zip(D, d)]
        I = [x + y for x, y in zip(I, ind)]
        taken += 1
        if "dynamic" in fixed and taken >= 2:
            break
    pw = e["pw"]
    return [[pw * (x + y) / taken for x, y in zip(D, I)], [pw * x / taken for x in D], [pw * x / taken for x in I], [x / taken for x in A], depth]


def unit(R):
    while True:
        x = [R.uniform(-1, 1) for _ in range(3)]
        k = math.sqrt(sum(y * y for y in x))
        if 0.2 < k < 1:
            return [y / k for y in x]


def run(ctx):
    W = fx.Wit(ctx, "m12.cpp", text(), flags=["-fno-access-control"])
    models = {"huira::Logger::get_level": (lambda *a: c(99), True)}
    rnd = random.Random(12)
    reps = 12 if ctx.thorough else 5

    def where(q):
        for f in W.P.fns.values():
            if f.has_body and f.q.startswith("huira::") and f.q.split("<")[0].split("(")[0].endswith(q.split("::")[-1]) and q.split("::")[-1] == f.n:
                return "%s:%s" % (f.file, f.line)
        return "include/huira_impl/render/renderer.ipp"

    def follow(name, env, **kw):
        fn = W.fns[name]
        pe = {mk("par", p["d"]): env[p["n"]] for p in fn.params if p["n"] in env}
        o, sure = W.toward(name, pe, known=ways.setdefault(name, []), models=models, unroll=70, budget=2000000, **kw)
        if not sure or o.stopped or not o.ok:
            ctx.count("undetermined")
            ctx.notes.append("%s: not followed%s" % (name, " to its end" if o.stopped else ""))
            return None, pe
        return o.vec(48), pe
    ways = {}

    def values(fixed):
        e = {n: rnd.uniform(0.2, 0.9) for n in T + list(AT) + ["u"]}
        for a, b in (("wxyz", 0), ("bxyz", 0), ("dxyz", 0), ("nxyz", 0)):
            for k, x in zip(a[1:], unit(rnd)):
                e[a[0] + k] = abs(x) if a[0] in "wn" else x
        e["wz"] = max(e["wz"], 0.05)
        e["op"], e["cl"], e["tr"] = 1.0, 1e30, 0.0
        e.update({k: x for k, x in fixed.items() if k in e})
        return e

    wh = where("Renderer::path_trace_")
    for name, (kinds, spp, bounces, lights, delta, fixed) in WAYS.items():
        if name == "deep":
            continue
        for _ in range(reps):
            e = values(fixed)
            x, pe = follow(name, e)
            if x is None:
                continue
            want = estimate(e, kinds, spp, bounces, lights, delta, fixed)
            for j, ch in enumerate(CHANNELS):
                for i in range(3):
                    fx.points(ctx, "estimator", "path tracing (%s): %s" % (name, ch), x[3 * j + i], [pe], lambda q: want[j][i], wh, rel=2e-5, atol=1e-9, say=lambda q: "a sample point", site="path tracing: %s (%s)" % (ch, name))
            fx.points(ctx, "estimator", "path tracing (%s): depth" % name, x[12], [pe], lambda q: want[4], wh, rel=1e-6, say=lambda q: "a sample point", site="path tracing: depth (%s)" % name)
            if spp == 1 and kinds[0] == 1 and "veil" not in name:
                fx.points(ctx, "estimator", "path tracing (%s): geometry id" % name, x[13], [pe], lambda q: 7, wh, say=lambda q: "a surface seen first (its id is 7)", site="path tracing: geometry id (%s)" % name)
                k = math.sqrt(sum(e["n" + i] ** 2 for i in "xyz"))
                for i in range(3):
                    fx.points(ctx, "estimator", "path tracing (%s): normal" % name, x[21 + i], [pe], lambda q: e["n" + "xyz"[i]] / k, wh, rel=2e-5, atol=1e-6, say=lambda q: "a surface seen first", site="path tracing: normal (%s)" % name)
            if kinds == [2]:
                for i in range(6):
                    d = e["d" + "xyz"[i % 3]]
                    fx.points(ctx, "estimator", "path tracing (%s): %s the light is asked for" % (name, "the direction" if i > 2 else "the point"), x[24 + i], [pe], lambda q: -d if i > 2 else d * e["t0"], wh, rel=2e-5, atol=1e-6, say=lambda q: "a sample point", site="path tracing: light seen")
            if kinds in ([0], [1, 0]) and bounces > len(kinds) - 1 and e["bq"] > 0 and e["op"] == 1:
                d = [e["b" + k] if kinds[0] else e["d" + k] for k in "xyz"]
                for i, w in enumerate((0.5 + math.atan2(d[2], d[0]) / (2 * math.pi), 0.5 - math.asin(d[1]) / math.pi)):
                    fx.points(ctx, "sky", "path tracing (%s): the sky's %s coordinate" % (name, "uv"[i]), x[14 + i], [pe], lambda q: w, wh, rel=1e-5, atol=1e-6, say=lambda q: "a sample point", site="sky coordinates")
            if kinds[0] == 1 and lights and (e["wz"] > 0 or e["tr"] > 0) and e["op"] == 1:
                fx.points(ctx, "estimator", "path tracing (%s): how far the way to the light is followed" % name, x[16], [pe], lambda q: e["ld"], wh, rel=1e-6, say=lambda q: "a sample point", site="path tracing: shadow (%s)" % name)
            if len(kinds) > 1 and kinds[0] == 1 and kinds[1] and spp == 1:
                for i in range(3):
                    w = e[("d" if e["op"] < e["u"] and e["op"] < 1 else "b") + "xyz"[i]]
                    fx.points(ctx, "estimator", "path tracing (%s): the next ray" % name, x[17 + i], [pe], lambda q: w, wh, rel=1e-5, say=lambda q: "a sample point", site="path tracing: next ray (%s)" % name)
    roulette(ctx, follow, values, wh)
    small(ctx, follow, where, rnd, reps, values)


def roulette(ctx, follow, values, wh):
    """Russian roulette: a survivor's contribution is divided by the probability of surviving, whatever that is."""
    kinds, spp, bounces, lights, delta, fixed = WAYS["deep"]
    for k in range(3):
        e = values({})
        for i in range(3):
            e["v%d" % i] = (0.95, 0.9, 0.8)[i] if k == 0 else e["v%d" % i]
        e["u"] = 1e-6
        x, pe = follow("deep", e)
        if x is None:
            continue
        first = estimate(e, kinds, spp, 4, lights, delta, fixed)
        # the first round's probability shows in the contribution of the fifth surface alone: use a path that ends there
        lo, hi = 0.0, 1.0
        base = None
        for _ in range(24):
            mid = (lo + hi) / 2
            e2 = dict(e, u=mid)
            y, pe2 = follow("deep", e2)
            if y is None:
                base = None
                break
            g = concrete(y[20].t, pe2)
            if g is None:
                base = None
                break
            base = True
            if g > 4:
                lo = mid
            else:
                hi = mid
        if not base:
            ctx.count("undetermined")
            continue
        p1 = (lo + hi) / 2
        if lo == 0.0 or hi == 1.0:
            p1 = 1.0 if hi == 1.0 else 0.0
        # just below it the path goes on: the fifth surface's light, and no other, is divided by that probability
        e3 = dict(e, u=p1 - 1e-4)
        y, pe3 = follow("deep", e3)
        if y is None:
            continue
        want5 = estimate(e, kinds, spp, 5, lights, delta, fixed)
        for i in range(3):
            w = first[2][i] + (want5[2][i] - first[2][i]) / p1
            fx.points(ctx, "roulette", "path tracing: light of a path that survives roulette with probability %.4f" % p1, y[6 + i], [pe3], lambda q: w, wh, rel=2e-3, atol=1e-9, say=lambda q: "a sample point", site="roulette")


def small(ctx, follow, where, rnd, reps, values):
    wh = where("Renderer::render")
    for name in ("glare", "no_glare"):
        for _ in range(reps):
            e = values({})
            x, pe = follow(name, e)
            if x is None:
                continue
            at = {i: e[n] for n, i in AT.items()}
            s = [at[i] + at[6 + i] for i in range(6)]
            for i in range(6):
                w = s[i] if name == "no_glare" else (1 - e["u"]) * s[i] + e["u"] * (s[i % 3] + s[i % 3 + 3]) / 2
                fx.points(ctx, "combined", "Renderer::render: received power (%s)" % name, x[i], [pe], lambda q: w, wh, rel=1e-5, say=lambda q: "a sample point", site="render: %s" % name)
    wh = where("power_heuristic")
    for f, g in ((1.0, 2.0), (3.0, 0.25), (0.0, 1.0), (1e3, 1e3), (math.inf, 2.0), (5.0, 0.0)):
        x, pe = follow("weight", {"f": f, "g": g})
        if x is not None:
            fx.points(ctx, "weights", "power_heuristic", x[0], [pe], lambda q: weight(f, g), wh, rel=1e-6, site="power_heuristic")
    wq, wi = where("interpolate_transform"), where("interpolate_irradiances")
    for n in (1, 2, 3):
        for z, t in enumerate(TIMES):
            e = {}
            for i in range(n):
                for k in "xyz":
                    e[k + str(i)] = rnd.uniform(-5, 5)
                h = [rnd.uniform(-1, 1) for _ in range(4)]
                h[0] = 1 + abs(h[0])
                m = math.sqrt(sum(y * y for y in h))
                for k, y in zip("abcd", h):
                    e[k + str(i)] = y / m
            j = min(int(math.floor(t * (n - 1))), max(n - 2, 0))
            k = min(j + 1, n - 1)
            fr = t * (n - 1) - j
            x, pe = follow("pose%d_%d" % (n, z), e)
            if x is not None:
                for a, nm in enumerate("xyz"):
                    w = e[nm + str(j)] * (1 - fr) + e[nm + str(k)] * fr
                    fx.points(ctx, "interpolation", "interpolate_transform of %d poses: position" % n, x[a], [pe], lambda q: w, wq, rel=1e-5, atol=1e-5, say=lambda q: "t = %g" % t, site="interpolate_transform: position of %d" % n)
                p, q2 = [[e[l + str(y)] for l in "abcd"] for y in (j, k)]
                d = sum(y * z for y, z in zip(p, q2))
                if d < 0:
                    q2, d = [-y for y in q2], -d
                th = math.acos(min(1.0, d))
                r = p if th < 1e-6 else [(math.sin((1 - fr) * th) * y + math.sin(fr * th) * z) / math.sin(th) for y, z in zip(p, q2)]
                got = [concrete(x[3 + a].t, pe) for a in range(4)]
                if None in got:
                    ctx.count("undetermined")
                    ctx.notes.append("interpolate_transform: rotation is undetermined")
                else:
                    sg = 1 if sum(y * z for y, z in zip(got, r)) >= 0 else -1
                    ok = all(abs(sg * y - z) < 1e-4 for y, z in zip(got, r))
                    ctx.ob(ok, "interpolation", wq, "interpolate_transform of %d poses at t = %g: rotation %s; by definition it is %s" % (n, t, got, r), "interpolate_transform: rotation of %d" % n)
            e = {}
            for i in range(n):
                for l in "rgb":
                    e[l + str(i)] = rnd.uniform(0.1, 5)
            x, pe = follow("light%d_%d" % (n, z), e)
            if x is not None:
                for a, l in enumerate("rgb"):
                    w = e[l + str(j)] * (1 - fr) + e[l + str(k)] * fr
                    fx.points(ctx, "interpolation", "interpolate_irradiances of %d samples" % n, x[a], [pe], lambda q: w, wi, rel=1e-5, atol=1e-6, say=lambda q: "t = %g" % t, site="interpolate_irradiances of %d" % n)
                fx.points(ctx, "interpolation", "max_irradiance of %d samples" % n, x[3], [pe], lambda q: max(e[l + str(i)] for l in "rgb" for i in range(n)), wi, rel=1e-6, say=lambda q: "a sample point", site="max_irradiance of %d" % n)
