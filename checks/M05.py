"""M05: reflectance models, their sampling, and materials follow their formulas.

The value graph of eval, sample and pdf of every BSDF (symbolic directions, frame, parameters and random numbers) is
compared pointwise with the published reflectance model, at random unit vectors in random orthonormal frames above and
below the horizon; hemisphere samplers are compared with their definitions and, by differentiating the value graph,
with the density they report.
"""
import math
import random
from sa import fx
from sa import terms as tm
from sa.alg import E
from sa.concrete import concrete

PI = math.pi
DIRS = "float ox, float oy, float oz, float ix, float iy, float iz, "
FRAME = "float nx, float ny, float nz, float tx, float ty, float tz, float bx, float by, float bz, "
PARS = "float a0, float a1, float a2, float rough, float metal"
SETUP = ("Vec3<float> wo{ox, oy, oz}, wi{ix, iy, iz}; Interaction<RGB> is{}; is.normal_s = Vec3<float>{nx, ny, nz}; is.tangent = Vec3<float>{tx, ty, tz}; "
         "is.bitangent = Vec3<float>{bx, by, bz}; is.normal_g = Vec3<float>{tx, ty, tz}; is.wo = Vec3<float>{bx, by, bz}; ShadingParams<RGB> sp; sp.albedo = RGB{a0, a1, a2}; sp.roughness = rough; sp.metallic = metal; ")
BSDFS = {"Lambertian": "", "LommelSeeliger": "", "McEwen": "", "OrenNayar": "", "CookTorrance": "", "Null": "", "Hapke": "(h, B0, hb, hc)"}
HP = "float h, float B0, float hb, float hc, "
IMG = ("auto im3 = [](RGB v) { return std::make_shared<Image<RGB>>(Resolution{1, 1}, v); }; auto im1 = [](float v) { return std::make_shared<Image<float>>(Resolution{1, 1}, v); }; "
       "auto imn = [](Vec3<float> v) { return std::make_shared<Image<Vec3<float>>>(Resolution{1, 1}, v); }; ")
MAT = ("Material<RGB> m(std::make_shared<%sBSDF<RGB>>(), im3(RGB{a0, a1, a2}), im1(1.0f), im1(1.0f), im1(1.0f), imn(Vec3<float>{0, 0, 1}), im3(RGB{1.0f}), im3(RGB{1.0f})); ")


def text():
    t = ['#include "huira/huira.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, 24>;"]

    def w(name, params, body):
        t.append("A %s(%s) { A o{}; %s return o; }" % (name, params.rstrip(", "), body))
    v3 = lambda at, x: " ".join("o[%d] = %s.%s;" % (at + i, x, "xyz"[i]) for i in range(3))
    s3 = lambda at, x: " ".join("o[%d] = %s[%d];" % (at + i, x, i) for i in range(3))
    for n, args in BSDFS.items():
        hp = HP if n == "Hapke" else ""
        w("eval_" + n, hp + DIRS + FRAME + PARS, SETUP + "%sBSDF<RGB> f%s; RGB e = f.eval(wo, wi, is, sp); %s o[3] = f.pdf(wo, wi, is, sp);" % (n, args, s3(0, "e")))
        w("sample_" + n, hp + DIRS + FRAME + PARS + ", float u1, float u2", SETUP + "%sBSDF<RGB> f%s; auto s = f.sample(wo, is, sp, u1, u2); %s %s o[6] = s.pdf; o[7] = s.is_delta; o[8] = s.is_valid();" % (n, args, v3(0, "s.wi"), s3(3, "s.value")))
        w("need_" + n, hp or "float q", "%sBSDF<RGB> f%s; auto r = f.requirements(); o[0] = r.needs_albedo; o[1] = r.needs_normal; o[2] = r.needs_metallic; o[3] = r.needs_roughness;" % (n, args))
    for n, extra in (("uniform_hemisphere", ""), ("cosine_hemisphere", ""), ("power_cosine_hemisphere", ", n"), ("sine_hemisphere", "")):
        w(n, "float u1, float u2, float n", "auto s = sampling::%s(u1, u2%s); %s o[3] = s.pdf;" % (n, extra, v3(0, "s.direction")))
    w("ggx_sample_half_vector", "float u1, float u2, float r", "auto s = sampling::ggx_sample_half_vector(u1, u2, r); %s o[3] = s.pdf;" % v3(0, "s.half_vector"))
    w("ggx_vndf_sample", "float ox, float oy, float oz, float u1, float u2, float r", "auto s = sampling::ggx_vndf_sample(Vec3<float>{ox, oy, oz}, r, u1, u2); %s o[3] = s.pdf;" % v3(0, "s.half_vector"))
    w("frames", "float x, float y, float z, " + FRAME, "Vec3<float> n{nx, ny, nz}, t{tx, ty, tz}, b{bx, by, bz}, v{x, y, z}; auto p = sampling::local_to_world(v, t, b, n); auto q = sampling::world_to_local(v, t, b, n); %s %s" % (v3(0, "p"), v3(3, "q")))
    w("default_frame", "float x, float y, float z", "Vec3<float> t, b; build_default_tangent_frame(Vec3<float>{x, y, z}, t, b); %s %s" % (v3(0, "t"), v3(3, "b")))
    # materials
    IS = "Interaction<RGB> is{}; is.normal_s = Vec3<float>{nx, ny, nz}; is.tangent = Vec3<float>{tx, ty, tz}; is.bitangent = Vec3<float>{bx, by, bz}; is.vertex_albedo = RGB{a0, a1, a2}; is.uv = Vec2<float>{0.5f, 0.5f}; "
    ev = s3(0, "e.params.albedo") + " o[3] = e.params.roughness; o[4] = e.params.metallic; o[5] = e.params.opacity; " + s3(6, "e.params.transmission") + s3(9, "e.params.emission") + v3(12, "e.isect.normal_s") + v3(15, "e.isect.tangent") + v3(18, "e.isect.bitangent")
    F1 = "float nx, float ny, float nz, float tx, float ty, float tz, float bx, float by, float bz, "
    for n in ("CookTorrance", "Lambertian", "OrenNayar"):
        w("mat_default_" + n, F1 + PARS, IS + IMG + MAT.replace("im3(RGB{a0, a1, a2})", "im3(RGB{1.0f})") % n + "auto e = m.evaluate(is); " + ev)
        w("mat_factors_" + n, F1 + PARS + ", float g0, float g1, float g2, float al, float k, float s", IS + IMG + MAT.replace("im3(RGB{a0, a1, a2})", "im3(RGB{1.0f})") % n +
          "m.set_albedo_factor(RGB{g0, g1, g2}); m.set_alpha_factor(al); m.set_metallic_factor(metal); m.set_roughness_factor(rough); m.set_transmission_factor(RGB{k, 2 * k, 3 * k}); m.set_emissive_factor(RGB{s, 5 * s, 7 * s}); auto e = m.evaluate(is); " + ev)
        w("mat_images_" + n, F1 + PARS + ", float g0, float g1, float g2, float al, float k, float s, float px, float py, float pz, float nf", IS + IMG + MAT.replace("im3(RGB{a0, a1, a2})", "im3(RGB{1.0f})") % n +
          "m.set_albedo(im3(RGB{g0, g1, g2})); m.set_alpha(im1(al)); m.set_metallic_image(im1(metal)); m.set_roughness_image(im1(rough)); m.set_transmission_image(im3(RGB{k, 2 * k, 3 * k})); m.set_emissive_image(im3(RGB{s, 5 * s, 7 * s})); m.set_normal_image(imn(Vec3<float>{px, py, pz})); m.set_normal_factor(nf); auto e = m.evaluate(is); " + ev)
    w("mat_reset", F1 + PARS + ", float g0, float g1, float g2, float al, float k, float s, float px, float py, float pz, float nf", IS + IMG + MAT.replace("im3(RGB{a0, a1, a2})", "im3(RGB{1.0f})") % "CookTorrance" +
      "m.set_albedo(im3(RGB{g0, g1, g2})); m.set_albedo_factor(RGB{g0, g1, g2}); m.set_alpha(im1(al)); m.set_alpha_factor(al); m.set_metallic_image(im1(metal)); m.set_metallic_factor(metal); m.set_roughness_image(im1(rough)); m.set_roughness_factor(rough); m.set_transmission_image(im3(RGB{k, 2 * k, 3 * k})); m.set_transmission_factor(RGB{k, k, k}); "
      "m.set_emissive_image(im3(RGB{s, 5 * s, 7 * s})); m.set_emissive_factor(RGB{s, s, s}); m.set_normal_image(imn(Vec3<float>{px, py, pz})); m.set_normal_factor(nf); "
      "m.reset_albedo(); m.reset_alpha(); m.reset_metallic(); m.reset_roughness(); m.reset_normal(); m.reset_transmission(); m.reset_emissive(); auto e = m.evaluate(is); o[21] = m.has_alpha(); o[22] = m.has_alpha_texture(); o[23] = m.alpha_factor(); " + ev)
    w("mat_alpha", PARS + ", float al", IMG + MAT % "Lambertian" + "o[0] = m.has_alpha(); o[1] = m.has_alpha_texture(); m.set_alpha_factor(al); o[2] = m.has_alpha(); o[3] = m.has_alpha_texture(); m.reset_alpha(); o[4] = m.has_alpha(); m.set_alpha(im1(al)); o[5] = m.has_alpha(); o[6] = m.has_alpha_texture();")
    g1 = "auto g1 = [](float a, float b, float c) { auto p = std::make_shared<Image<float>>(Resolution{2, 2}); (*p)(0, 0) = a; (*p)(1, 0) = a + b; (*p)(0, 1) = a + c; (*p)(1, 1) = a + b + c; return p; }; auto g3 = [](float a, float b, float c) { auto p = std::make_shared<Image<RGB>>(Resolution{2, 2}); (*p)(0, 0) = RGB{a, 1, 2}; (*p)(1, 0) = RGB{a + b, 1, 2}; (*p)(0, 1) = RGB{a + c, 1, 2}; (*p)(1, 1) = RGB{a + b + c, 1, 2}; return p; }; auto gn = [](float a, float b, float c) { auto p = std::make_shared<Image<Vec3<float>>>(Resolution{2, 2}); (*p)(0, 0) = Vec3<float>{0, 0, 1}; (*p)(1, 0) = Vec3<float>{b, 0, 1}; (*p)(0, 1) = Vec3<float>{0, c, 1}; (*p)(1, 1) = Vec3<float>{b, c, 1}; return p; }; "
    w("mat_uv", "float u, float v, float a, float b, float c", "Interaction<RGB> is{}; is.normal_s = Vec3<float>{0, 0, 1}; is.tangent = Vec3<float>{1, 0, 0}; is.bitangent = Vec3<float>{0, 1, 0}; is.uv = Vec2<float>{u, v}; " + IMG + g1 + MAT.replace("im3(RGB{a0, a1, a2})", "im3(RGB{1.0f})") % "CookTorrance" +
      "m.set_albedo(g3(a, b, c)); m.set_alpha(g1(a, b, c)); m.set_metallic_image(g1(a, b, c)); m.set_roughness_image(g1(a, b, c)); m.set_transmission_image(g3(a, b, c)); m.set_emissive_image(g3(a, b, c)); m.set_normal_image(gn(a, b, c)); auto e = m.evaluate(is); " + ev)
    w("mat_bsdf", DIRS + FRAME + PARS + ", float u1, float u2", SETUP + IMG + MAT % "CookTorrance" + "m.set_bsdf(std::make_shared<OrenNayarBSDF<RGB>>()); MaterialEval<RGB> me{sp, is}; RGB e = m.bsdf_eval(wo, wi, me); auto s = m.bsdf_sample(wo, me, u1, u2); o[3] = m.bsdf_pdf(wo, wi, me); %s %s %s o[10] = s.pdf;" % (s3(0, "e"), v3(4, "s.wi"), s3(7, "s.value")))
    t.append("}")
    return "\n".join(t)


# ---------------------------------------------------------------- the models

def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def unit(v):
    n = math.sqrt(dot(v, v))
    return [q / n for q in v]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def f_lambert(p, ci, co, wi, wo, n):
    return [a / PI for a in p["alb"]]


def f_ls(p, ci, co, wi, wo, n):
    return [a / (4 * PI * (ci + co)) for a in p["alb"]]


def f_mcewen(p, ci, co, wi, wo, n):
    b = math.exp(-math.acos(max(-1, min(1, dot(wi, wo)))) / (PI / 3))
    return [a * ((1 - b) / PI + b / (4 * PI * (ci + co))) for a in p["alb"]]


def f_on(p, ci, co, wi, wo, n):
    s2 = (p["rough"] * PI / 2) ** 2
    A, B = 1 - 0.5 * s2 / (s2 + 0.33), 0.45 * s2 / (s2 + 0.09)
    # max(0, cos(phi_i - phi_o)) sin(alpha) tan(beta)
    ti, to = [wi[k] - ci * n[k] for k in range(3)], [wo[k] - co * n[k] for k in range(3)]
    si, so = math.sqrt(dot(ti, ti)), math.sqrt(dot(to, to))
    c = dot(ti, to) / (si * so) if si * so > 1e-12 else 0
    thi, tho = math.atan2(si, ci), math.atan2(so, co)
    return [a / PI * (A + B * max(0, c) * math.sin(max(thi, tho)) * math.tan(min(thi, tho))) for a in p["alb"]]


def ggx(p):
    r = min(p["rough"], 1.0)
    return r * r


def ndf(c, a):
    d = c * c * (a * a - 1) + 1
    return a * a / (PI * d * d)


def g1(c, a):
    return 2 / (1 + math.sqrt(1 + a * a * (1 - c * c) / (c * c)))


def f_ct(p, ci, co, wi, wo, n):
    a = ggx(p)
    m = min(max(p["metal"], 0), 1)
    h = unit([x + y for x, y in zip(wi, wo)])
    nh, oh = max(dot(n, h), 0), max(dot(wo, h), 0)
    out = []
    for k in p["alb"]:
        f0 = k * m + 0.04 * (1 - m)
        F = f0 + (1 - f0) * (1 - oh) ** 5
        out.append(k * (1 - m) / PI + F * ndf(nh, a) * g1(ci, a) * g1(co, a) / (4 * ci * co))
    return out


def p_ct(p, ci, co, wi, wo, n):
    a = ggx(p)
    m = min(max(p["metal"], 0), 1)
    h = unit([x + y for x, y in zip(wi, wo)])
    s = 0.5 * (1 + m)
    return s * ndf(max(dot(n, h), 0), a) * g1(co, a) / (4 * co) + (1 - s) * ci / PI


def f_hapke(p, ci, co, wi, wo, n):
    c = max(-1, min(1, dot(wi, wo)))
    al = math.acos(c)
    hg = lambda g: (1 - g * g) / (1 + g * g - 2 * g * c) ** 1.5
    # double Henyey-Greenstein in the phase angle: backward lobe (1-c), forward lobe c
    P = (1 - p["hc"]) * hg(-p["hb"]) + p["hc"] * hg(p["hb"])
    B = p["B0"] / (1 + math.tan(al / 2) / p["h"]) if p["h"] > 0 else 0.0
    out = []
    for w in p["alb"]:
        g = math.sqrt(1 - w)
        H = lambda m: (1 + 2 * m) / (1 + 2 * m * g)
        out.append(w / (4 * PI * (ci + co)) * ((1 + B) * P - 1 + H(ci) * H(co)))
    return out


MODELS = {"Lambertian": f_lambert, "LommelSeeliger": f_ls, "McEwen": f_mcewen, "OrenNayar": f_on, "CookTorrance": f_ct, "Hapke": f_hapke}


def cosine(u1, u2):
    r, ph = math.sqrt(u1), 2 * PI * u2
    return [r * math.cos(ph), r * math.sin(ph), math.sqrt(max(0, 1 - u1))]


def vndf(wo, a, u1, u2):
    """Heitz 2018."""
    V = unit([a * wo[0], a * wo[1], wo[2]])
    l = V[0] ** 2 + V[1] ** 2
    T1 = [-V[1] / math.sqrt(l), V[0] / math.sqrt(l), 0] if l > 0 else [1, 0, 0]
    T2 = cross(V, T1)
    r, ph = math.sqrt(u1), 2 * PI * u2
    t1, t2 = r * math.cos(ph), r * math.sin(ph)
    s = 0.5 * (1 + V[2])
    t2 = (1 - s) * math.sqrt(1 - t1 * t1) + s * t2
    N = [t1 * T1[k] + t2 * T2[k] + math.sqrt(max(0, 1 - t1 * t1 - t2 * t2)) * V[k] for k in range(3)]
    return unit([a * N[0], a * N[1], max(0, N[2])])


# ---------------------------------------------------------------- sample points

def rframe(r):
    while True:
        n = [r.gauss(0, 1) for _ in range(3)]
        q = [r.gauss(0, 1) for _ in range(3)]
        if dot(n, n) > 0.1 and dot(q, q) > 0.1 and abs(dot(unit(n), unit(q))) < 0.95:
            break
    n = unit(n)
    t = unit([q[k] - dot(q, n) * n[k] for k in range(3)])
    return n, t, cross(n, t)


def rdir(r, n, above):
    while True:
        v = unit([r.gauss(0, 1) for _ in range(3)])
        c = dot(v, n)
        if abs(c) > 0.05:
            return v if (c > 0) == above else [-x for x in v]


def run(ctx):
    W = fx.Wit(ctx, "w_m05.cpp", text())
    W.scoped()
    P = W.P

    def go(nm):
        o = W.run(nm, unroll=12, budget=8000000)
        wh = fx.where_of(P, o.fn, last=True)[0]
        if not o.ok:
            o.never("returns", wh, "%s never returns a value" % nm, nm)
            return None, wh, None
        ctx.sample(nm)
        return o, wh, {p["n"]: tm.mk("par", p["d"]) for p in o.fn.params}

    def out(o, i):
        return o.load(tm.el(o.r.val, tm.c(i)))

    def envs_for(a, count=36, seed=5):
        r = random.Random(seed)
        es = []
        for i in range(count):
            n, t, b = rframe(r)
            above = [(True, True), (True, True), (True, True), (False, True), (True, False), (False, False)][i % 6]
            wo, wi = rdir(r, n, above[0]), rdir(r, n, above[1])
            v = dict(zip(("ox", "oy", "oz", "ix", "iy", "iz"), wo + wi))
            v.update(zip(("nx", "ny", "nz", "tx", "ty", "tz", "bx", "by", "bz"), n + t + b))
            v.update(a0=r.uniform(0.05, 0.95), a1=r.uniform(0.05, 0.95), a2=r.uniform(0.05, 0.95), rough=r.choice((0.2, 0.5, 0.9, r.uniform(0.1, 1))), metal=r.choice((0.0, 0.3, 1.0)),
                     u1=r.uniform(0.02, 0.98), u2=r.uniform(0.02, 0.98), h=r.choice((0.05, 0.4, 0.0)), B0=r.uniform(0.1, 1), hb=r.uniform(0.05, 0.6), hc=r.uniform(0.1, 0.9))
            if i % 9 == 8:
                v["rough"], v["metal"] = r.choice(((1.7, 0.5), (0.5, -0.5), (0.5, 1.5)))
            es.append((v, {a[k]: x for k, x in v.items() if k in a}))
        return es

    def unpack(v):
        n, wo, wi = [v["nx"], v["ny"], v["nz"]], [v["ox"], v["oy"], v["oz"]], [v["ix"], v["iy"], v["iz"]]
        p = dict(v, alb=[v["a0"], v["a1"], v["a2"]])
        return p, n, wo, wi

    def points(rule, name, term, es, want, wh, **k):
        back = {id(e): v for v, e in es}
        k.setdefault("rel", 2e-5)
        fx.points(ctx, rule, name, term, [e for _, e in es], lambda e: want(back[id(e)]), wh, atol=k.pop("atol", 1e-7), say=lambda e: ", ".join("%s=%.4g" % (q, x) for q, x in back[id(e)].items() if q in names), **k)

    for n in BSDFS:
        one_sided = n == "Lambertian"  # a Lambertian surface depends on the light's side only
        o, wh, names = go("eval_" + n)
        if o:
            es = envs_for(names)

            def f(v, n=n):
                p, nn, wo, wi = unpack(v)
                if n == "Null":
                    return [0.0] * 3
                ci, co = dot(wi, nn), dot(wo, nn)
                if ci <= 0 or co <= 0:
                    return None if one_sided and ci > 0 else [0.0] * 3
                return MODELS[n](p, ci, co, wi, wo, nn)

            def pd(v, n=n):
                p, nn, wo, wi = unpack(v)
                if n == "Null":
                    return 0.0
                ci, co = dot(wi, nn), dot(wo, nn)
                if ci <= 0 or co <= 0:
                    return None if one_sided and ci > 0 else 0.0
                return p_ct(p, ci, co, wi, wo, nn) if n == "CookTorrance" else ci / PI
            for i in range(3):
                points("reflectance", "%s eval, bin %d" % (n, i), out(o, i), es, lambda v, i=i: (f(v) or [None] * 3)[i], wh)
            points("density", "%s pdf" % n, out(o, 3), es, pd, wh)
        o, wh, names = go("sample_" + n)
        if o:
            es = envs_for(names, 48, 7)

            def smp(v, n=n):
                """wi, value, pdf by definition (None: not claimed)."""
                p, nn, wo, _ = unpack(v)
                t, b = [v["tx"], v["ty"], v["tz"]], [v["bx"], v["by"], v["bz"]]
                if n == "Null":
                    return [-x for x in wo], [1.0] * 3, 1.0, 1.0
                co = dot(wo, nn)
                if n == "CookTorrance":
                    if co <= 0:
                        return None, [0.0] * 3, 0.0, 0.0
                    s = 0.5 * (1 + min(max(v["metal"], 0), 1))
                    if v["u1"] < s:
                        wl = [dot(wo, t), dot(wo, b), co]
                        h = vndf(wl, ggx(p), v["u1"] / s, v["u2"])
                        k = 2 * dot(wl, h)
                        l = [k * h[q] - wl[q] for q in range(3)]
                    else:
                        l = cosine((v["u1"] - s) / (1 - s), v["u2"])
                else:
                    l = cosine(v["u1"], v["u2"])
                if l[2] <= 0:
                    return None, [0.0] * 3, 0.0, 0.0
                wi = [t[q] * l[0] + b[q] * l[1] + nn[q] * l[2] for q in range(3)]
                if co <= 0:
                    return (wi, None, None, 0.0) if one_sided else (None, [0.0] * 3, 0.0, 0.0)
                f = MODELS[n](p, l[2], co, wi, wo, nn)
                d = p_ct(p, l[2], co, wi, wo, nn) if n == "CookTorrance" else l[2] / PI
                return wi, [x * l[2] / d for x in f], d, 0.0
            # (float32 intermediates are read as reals; near-grazing specular lobes are ill-conditioned, hence the tolerance)
            for i in range(3):
                points("sampling", "%s sample, direction %s" % (n, "xyz"[i]), out(o, i), es, lambda v, i=i: (smp(v)[0] or [None] * 3)[i], wh, rel=1e-4, atol=1e-6)
                points("sampling", "%s sample, weight f*cos/pdf of bin %d" % (n, i), out(o, 3 + i), es, lambda v, i=i: (smp(v)[1] or [None] * 3)[i], wh, rel=1e-3, atol=1e-6)
            points("sampling", "%s sample, pdf" % n, out(o, 6), es, lambda v: smp(v)[2], wh, rel=1e-3, atol=1e-6)
            points("sampling", "%s sample, is_delta" % n, out(o, 7), es, lambda v: smp(v)[3], wh)
            points("sampling", "%s sample, is_valid" % n, out(o, 8), es, lambda v: None if smp(v)[2] is None else float(smp(v)[2] > 0), wh)
        o, wh, names = go("need_" + n)
        if o:
            for i, w in enumerate({"CookTorrance": (1, 1, 1, 1), "OrenNayar": (1, 1, 0, 1), "Null": (0, 0, 0, 0)}.get(n, (1, 1, 0, 0))):
                if w:  # (asking for more than is used is harmless)
                    fx.points(ctx, "requirements", "%s needs %s" % (n, ("albedo", "normal", "metallic", "roughness")[i]), out(o, i), [{}], lambda e: 1.0, wh)

    # ---------------------------------------------------------------- samplers
    r = random.Random(3)
    us = [(r.uniform(0.03, 0.97), r.uniform(0.03, 0.97)) for _ in range(24)] + [(0.25, 0.0), (0.75, 0.5)]

    def jac(o, env, k1, k2):
        """1 / |d(direction)/d(u1, u2)|, by central differences of the value graph."""
        st = 1e-5
        d = []
        for k in (k1, k2):
            p, q = dict(env), dict(env)
            p[k] += st
            q[k] -= st
            x = [concrete(out(o, i).t if hasattr(out(o, i), "t") else out(o, i), p) for i in range(3)]
            y = [concrete(out(o, i).t if hasattr(out(o, i), "t") else out(o, i), q) for i in range(3)]
            if None in x + y:
                return None
            d.append([(s - t) / (2 * st) for s, t in zip(x, y)])
        c = cross(*d)
        m = math.sqrt(dot(c, c))
        return 1 / m if m > 1e-9 else None

    def density(nm, o, wh, es, a, rel=2e-3):
        fx.points(ctx, "density", "%s: its pdf is the density of its directions" % nm, out(o, 3), es, lambda e: jac(o, e, a["u1"], a["u2"]), wh, rel=rel, atol=1e-4)

    for nm in ("uniform_hemisphere", "cosine_hemisphere", "power_cosine_hemisphere", "sine_hemisphere", "ggx_sample_half_vector"):
        o, wh, a = go(nm)
        if not o:
            continue
        extra = a.get("n", a.get("r"))
        es = [{a["u1"]: p, a["u2"]: q, extra: x} for p, q in us for x in ((1.0, 3.0, 20.0) if nm[0] == "p" else (0.3, 0.6, 1.0) if nm[0] == "g" else (1.0,))]
        def d(e):
            u, v, x = e[a["u1"]], e[a["u2"]], e[extra]
            if nm == "uniform_hemisphere":
                return u
            if nm == "cosine_hemisphere":
                return math.sqrt(1 - u)
            if nm == "power_cosine_hemisphere":
                return u ** (1 / (x + 1))
            if nm == "ggx_sample_half_vector":
                return math.sqrt((1 - u) / (1 + (x ** 4 - 1) * u))
        def full(e):
            z = d(e)
            if z is None:
                return [None] * 3
            s, ph = math.sqrt(1 - z * z), 2 * PI * e[a["u2"]]
            return [s * math.cos(ph), s * math.sin(ph), z]
        if nm != "sine_hemisphere":
            for i in range(3):
                fx.points(ctx, "samplers", "%s direction %s" % (nm, "xyz"[i]), out(o, i), es, lambda e, i=i: full(e)[i], wh, atol=1e-6)
        else:
            fx.points(ctx, "samplers", "sine_hemisphere gives unit vectors", (E(out(o, 0)) ** 2 + E(out(o, 1)) ** 2 + E(out(o, 2)) ** 2).t, es, lambda e: 1.0, wh, atol=1e-6)
        density(nm, o, wh, es, a)
    o, wh, a = go("ggx_vndf_sample")
    if o:
        es, back = [], {}
        for p, q in us:
            w = rdir(r, [0, 0, 1], True)
            x = r.choice((0.3, 0.6, 0.9))
            e = {a["u1"]: p, a["u2"]: q, a["r"]: x, a["ox"]: w[0], a["oy"]: w[1], a["oz"]: w[2]}
            es.append(e)
            back[id(e)] = w
        es.append({a["u1"]: 0.3, a["u2"]: 0.6, a["r"]: 0.5, a["ox"]: 0.0, a["oy"]: 0.0, a["oz"]: 1.0})
        back[id(es[-1])] = [0.0, 0.0, 1.0]
        for i in range(3):
            fx.points(ctx, "samplers", "ggx_vndf_sample half vector %s" % "xyz"[i], out(o, i), es, lambda e, i=i: vndf(back[id(e)], e[a["r"]] ** 2, e[a["u1"]], e[a["u2"]])[i], wh, rel=1e-4, atol=1e-6)
        def pv(e):
            w, al = back[id(e)], e[a["r"]] ** 2
            h = vndf(w, al, e[a["u1"]], e[a["u2"]])
            return ndf(h[2], al) * g1(w[2], al) * max(dot(w, h), 0) / w[2]
        fx.points(ctx, "samplers", "ggx_vndf_sample pdf", out(o, 3), es, pv, wh, rel=1e-3)
        density("ggx_vndf_sample", o, wh, es, a, 5e-3)
    o, wh, a = go("frames")
    if o:
        V = [E(a[k]) for k in ("x", "y", "z")]
        fr = {k: [E(a[k + c]) for c in "xyz"] for k in "tbn"}
        for i in range(3):
            fx.check(ctx, "frames", "local_to_world %s" % "xyz"[i], E(out(o, i)), fr["t"][i] * V[0] + fr["b"][i] * V[1] + fr["n"][i] * V[2], wh)
            k = "tbn"[i]
            fx.check(ctx, "frames", "world_to_local %s" % "xyz"[i], E(out(o, 3 + i)), sum((fr[k][j] * V[j] for j in range(3)), E(0)), wh)
    o, wh, a = go("default_frame")
    if o:
        es, T = [], {}
        for i in range(24):
            n = unit([r.gauss(0, 1) for _ in range(3)])
            es.append(dict(zip((a["x"], a["y"], a["z"]), n)))
        es += [dict(zip((a["x"], a["y"], a["z"]), n)) for n in ([0., 0., 1.], [0., 0., -1.], [1., 0., 0.], [0., -1., 0.])]
        t, b, n = [E(out(o, i)) for i in range(3)], [E(out(o, 3 + i)) for i in range(3)], [E(a[k]) for k in "xyz"]
        ed = lambda p, q: sum((x * y for x, y in zip(p, q)), E(0))
        for nm, x, w in (("tangent has unit length", ed(t, t), 1.0), ("bitangent has unit length", ed(b, b), 1.0), ("tangent is orthogonal to the normal", ed(t, n), 0.0), ("bitangent is orthogonal to the normal", ed(b, n), 0.0), ("tangent is orthogonal to bitangent", ed(t, b), 0.0),
                         ("frame is right-handed", ed([t[1] * b[2] - t[2] * b[1], t[2] * b[0] - t[0] * b[2], t[0] * b[1] - t[1] * b[0]], n), 1.0)):
            fx.points(ctx, "frames", "default tangent frame: " + nm, x.t, es, lambda e, w=w: w, wh, atol=1e-5)

    # ---------------------------------------------------------------- materials
    def menvs(a, seed=11):
        r = random.Random(seed)
        es = []
        for i in range(10):
            n, t, b = rframe(r)
            v = dict(zip(("nx", "ny", "nz", "tx", "ty", "tz", "bx", "by", "bz"), n + t + b))
            p = unit([r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5), 1])
            v.update(zip(("px", "py", "pz"), p))
            for k in ("a0", "a1", "a2", "g0", "g1", "g2", "al", "k", "s", "rough", "metal"):
                v[k] = r.uniform(0.1, 0.9)
            v["nf"] = r.choice((1.0, 0.5, 1.7))
            es.append((v, {a[k]: x for k, x in v.items() if k in a}))
        return es
    for n in ("CookTorrance", "Lambertian", "OrenNayar"):
        needs = {"CookTorrance": (1, 1), "Lambertian": (0, 0), "OrenNayar": (1, 0)}[n]
        for kind in ("default", "factors", "images"):
            o, wh, names = go("mat_%s_%s" % (kind, n))
            if o:
                material(points, out, o, wh, menvs(names), kind, needs, n)
    o, wh, names = go("mat_reset")
    if o:
        es = menvs(names)
        material(points, out, o, wh, es, "default", (1, 1), "CookTorrance, after reset")
        for i, (w, nm) in enumerate(((0.0, "has_alpha"), (0.0, "has_alpha_texture"), (1.0, "alpha_factor"))):
            points("material", "%s after reset" % nm, out(o, 21 + i), es, lambda v, w=w: w, wh)
    o, wh, names = go("mat_uv")
    if o:
        r = random.Random(23)
        es = []
        for _ in range(8):
            v = {k: r.uniform(0.1, 0.9) for k in "uvabc"}
            es.append((v, {names[k]: x for k, x in v.items()}))
        lin = lambda v: v["a"] + v["b"] * v["u"] + v["c"] * v["v"]
        for i, nm in ((0, "albedo"), (3, "roughness"), (4, "metallic"), (5, "opacity"), (6, "transmission"), (9, "emission")):
            points("material", "%s texture read at (u, v)" % nm, out(o, i), es, lin, wh, rel=1e-4)
        for i in range(3):
            points("material", "normal texture read at (u, v), %s" % "xyz"[i], out(o, 12 + i), es, lambda v, i=i: unit([v["b"] * v["u"], v["c"] * v["v"], 1.0])[i], wh, rel=1e-4, atol=1e-6)
    o, wh, names = go("mat_alpha")
    if o:
        es = [({"al": x}, {names["al"]: x}) for x in (0.3, 0.99, 1.0)]
        for i, w in enumerate((lambda v: 0.0, lambda v: 0.0, lambda v: float(v["al"] < 1), lambda v: 0.0, lambda v: 0.0, lambda v: 1.0, lambda v: 1.0)):
            points("material", "alpha flags %d" % i, out(o, i), es, w, wh)
    o, wh, names = go("mat_bsdf")
    if o:
        es = envs_for(names, 24, 9)

        def on(v):
            p, nn, wo, wi = unpack(v)
            ci, co = dot(wi, nn), dot(wo, nn)
            return (f_on(p, ci, co, wi, wo, nn), ci / PI) if ci > 0 and co > 0 else ([0.0] * 3, 0.0)

        def sm(v):
            p, nn, wo, _ = unpack(v)
            l = cosine(v["u1"], v["u2"])
            wi = [v["t" + c] * l[0] + v["b" + c] * l[1] + v["n" + c] * l[2] for c in "xyz"]
            co = dot(wo, nn)
            if co <= 0:
                return [None] * 3, [0.0] * 3, 0.0
            return wi, [x * PI for x in f_on(p, l[2], co, wi, wo, nn)], l[2] / PI
        for i in range(3):
            points("material", "bsdf_eval, bin %d" % i, out(o, i), es, lambda v, i=i: on(v)[0][i], wh)
            points("material", "bsdf_sample, direction %s" % "xyz"[i], out(o, 4 + i), es, lambda v, i=i: sm(v)[0][i], wh, rel=1e-4, atol=1e-6)
            points("material", "bsdf_sample, weight of bin %d" % i, out(o, 7 + i), es, lambda v, i=i: sm(v)[1][i], wh, rel=1e-4)
        points("material", "bsdf_pdf", out(o, 3), es, lambda v: on(v)[1], wh)
        points("material", "bsdf_sample, pdf", out(o, 10), es, lambda v: sm(v)[2], wh)
    ctx.level = "static analysis: value graphs of reflectance models, samplers and materials compared pointwise with their definitions"


def material(points, out, o, wh, es, kind, needs, n):
    im = kind != "default"
    w = {}
    for i in range(3):
        a = "a%d" % i
        w[i] = ("albedo %d" % i, lambda v, i=i: v["a%d" % i] * (v["g%d" % i] if im else 1.0))
        w[6 + i] = ("transmission %d" % i, lambda v, i=i: v["k"] * (1, 2, 3)[i] if im else 0.0)
        w[9 + i] = ("emission %d" % i, lambda v, i=i: v["s"] * (1, 5, 7)[i] if im else 0.0)
    if needs[0]:
        w[3] = ("roughness", lambda v: v["rough"] if im else 1.0)
    if needs[1]:
        w[4] = ("metallic", lambda v: v["metal"] if im else 0.0)
    w[5] = ("opacity", lambda v: v["al"] if im else 1.0)

    def frame(v):
        nn, t, b = [[v[k + c] for c in "xyz"] for k in "ntb"]
        if kind != "images":
            return nn, t, b
        p = unit([v["px"] * v["nf"], v["py"] * v["nf"], v["pz"]])
        m = unit([t[k] * p[0] + b[k] * p[1] + nn[k] * p[2] for k in range(3)])
        d = dot(t, m)
        t2 = unit([t[k] - d * m[k] for k in range(3)])
        return m, t2, cross(m, t2)
    for i in range(3):
        for j, nm in enumerate(("normal", "tangent", "bitangent")):
            w[12 + 3 * j + i] = ("%s %s" % (nm, "xyz"[i]), lambda v, i=i, j=j: frame(v)[j][i])
    for i, (nm, f) in w.items():
        points("material", "%s of a %s material with %s" % (nm, n, {"default": "no settings", "factors": "factors", "images": "images"}[kind]), out(o, i), es, f, wh, rel=1e-4, atol=1e-6)

