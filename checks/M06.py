"""M06: lights, unresolved objects, stars and media follow their radiometric formulas.

Value graphs of witnesses that build the emitters and media through their constructors with symbolic radii, powers,
positions and random numbers; compared pointwise with the formulas, and sampled directions with the density they report
(by differentiating the value graph). Black-body radiance and the magnitude zero point are uninterpreted here.
"""
import itertools
import math
import random
from sa import concrete as cc
from sa import fx
from sa import terms as tm

PI = math.pi
N = 32
AU = 149597870700.0
SAMP = ("struct S2 : Sampler<float> { float a, b; int k = 0; S2(float x, float y) : a(x), b(y) {} float get_1d() override { return k++ == 0 ? a : b; } Vec2<float> get_2d() override { return Vec2<float>{a, b}; } };\n"
        "struct R2 : RandomSampler<float> { float a, b; int k = 0; R2(float x, float y) : RandomSampler<float>(1u), a(x), b(y) {} float get_1d() override { return k++ == 0 ? a : b; } Vec2<float> get_2d() override { return Vec2<float>{a, b}; } };\n")
POS = "float ix, float iy, float iz, float lx, float ly, float lz, "
SETP = "Interaction<RGB> is{}; is.position = Vec3<float>{ix, iy, iz}; Transform<float> T; T.position = Vec3<float>{lx, ly, lz}; "
LIGHT = "auto lp = std::make_shared<SphereLight<RGB>>(units::Meter{R}, units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{L0, L1, L2})); "
ENV2 = ("std::shared_ptr<Light<RGB>> lt = lp; auto op = std::make_shared<SphereLight<RGB>>(units::Meter(0.3), units::Watt(3.0)); std::shared_ptr<Light<RGB>> ot = op; "
        "Light<RGB>* raw = lp.get(); auto in = std::make_shared<Instance<RGB>>(nullptr, Instantiable<RGB>{raw}); InstanceHandle<RGB> h(in); "
        "std::vector<LightInstance<RGB>> ls; Transform<float> T0, T1, S; T0.position = Vec3<float>{7.0f, -3.0f, 2.0f}; T1.position = Vec3<float>{lx, ly, lz}; S.position = Vec3<float>{ix, iy, iz}; "
        "LightInstance<RGB> a, b; a.light = ot; a.transforms.push_back(T0); b.light = lt; b.transforms.push_back(T1); ")
ORDER = {"first": "ls.push_back(b); ls.push_back(a); ", "second": "ls.push_back(a); ls.push_back(b); ", "none": "ls.push_back(a); ", "empty": ""}
SEQ = [s for k in (4,) for s in itertools.product("ABC", repeat=k)] + [tuple(s) for s in ("ABDABN", "ABCACB", "NDAABB", "ABCBAC", "ACBCAB", "ABCBBA")]


def text():
    t = ['#include "huira/huira.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, %d>;" % N, SAMP]

    def w(name, params, body):
        t.append("A %s(%s) { A o{}; %s return o; }" % (name, params.rstrip(", "), body))
    v3 = lambda at, x: " ".join("o[%d] = %s.%s;" % (at + i, x, "xyz"[i]) for i in range(3))
    s3 = lambda at, x: " ".join("o[%d] = %s[%d];" % (at + i, x, i) for i in range(3))
    # lights
    RAD = "auto r = l.radiance(Vec3<float>{x, y, z}, Vec3<float>{y, z, x}); " + s3(0, "r") + " o[3] = l.radius().to_si();"
    w("light_spectral_power", "double R, float p0, float p1, float p2, float x, float y, float z", "SphereLight<RGB> l(units::Meter{R}, units::SpectralWatts<RGB>(RGB{p0, p1, p2})); " + RAD)
    w("light_radiance", "double R, float p0, float p1, float p2, float x, float y, float z", "SphereLight<RGB> l(units::Meter{R}, units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{p0, p1, p2})); " + RAD)
    w("light_power", "double R, double p, float x, float y, float z", "SphereLight<RGB> l(units::Meter{R}, units::Watt{p}); " + RAD + " auto q = RGB::from_total(1.0f); " + s3(4, "q"))
    w("light_bb", "double R, double p, float x, float y, float z", "SphereLight<RGB> l(units::Meter{R}, units::Kelvin{p}); " + RAD)
    LL = "SphereLight<RGB> l(units::Meter{R}, units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB{L0, L1, L2})); "
    w("light_sample", POS + "double R, float L0, float L1, float L2, float u1, float u2", SETP + LL + "S2 sp(u1, u2); auto s = l.sample_li(is, T, sp); o[0] = s.has_value(); if (s) { " + v3(1, "s->wi") + s3(4, "s->Li") + " o[7] = s->pdf; o[8] = s->distance; o[9] = l.pdf_li(is, T, s->wi); }")
    w("light_pdf", POS + "double R, float L0, float L1, float L2, float wx, float wy, float wz", SETP + LL + "o[0] = l.pdf_li(is, T, Vec3<float>{wx, wy, wz}); auto e = l.irradiance_at(Vec3<float>{ix, iy, iz}, T); " + s3(1, "e"))
    # unresolved objects
    T = ", Time t"
    GET = "auto e = u.get_irradiance(t); " + s3(0, "e")
    w("obj_spectral", "float p0, float p1, float p2, float q" + T, "UnresolvedObject<RGB> u(units::SpectralWattsPerMeterSquared<RGB>(RGB{p0, p1, p2})); std::vector<LightInstance<RGB>> ls; Transform<float> S; S.position = Vec3<float>{q, q, q}; u.resolve_irradiance(S, ls); " + GET)
    w("obj_total", "double p" + T, "UnresolvedObject<RGB> u(units::WattsPerMeterSquared{p}); auto f = RGB::from_total(1.0f); " + s3(4, "f") + GET)
    w("obj_set", "float p0, float p1, float p2, double p" + T, "UnresolvedObject<RGB> u; auto z = u.get_irradiance(t); " + s3(3, "z") + "u.set_irradiance(units::WattsPerMeterSquared{p}); auto y = u.get_irradiance(t); " + s3(6, "y") + "u.set_irradiance(units::SpectralWattsPerMeterSquared<RGB>(RGB{p0, p1, p2})); auto f = RGB::from_total(1.0f); " + s3(9, "f") + GET)
    w("em_spectral", "float p0, float p1, float p2, float ix, float iy, float iz" + T, "UnresolvedEmitter<RGB> u(units::SpectralWatts<RGB>(RGB{p0, p1, p2})); std::vector<LightInstance<RGB>> ls; Transform<float> S; S.position = Vec3<float>{ix, iy, iz}; u.resolve_irradiance(S, ls); " + GET)
    w("em_total", "double p, float ix, float iy, float iz" + T, "UnresolvedEmitter<RGB> u(units::Watt{p}); std::vector<LightInstance<RGB>> ls; Transform<float> S; S.position = Vec3<float>{ix, iy, iz}; u.resolve_irradiance(S, ls); auto f = RGB::from_total(1.0f); " + s3(4, "f") + GET)
    for k, od in ORDER.items():
        P = POS + "double R, float L0, float L1, float L2, double rad, float a0, float a1, float a2" + T
        w("sphere_" + k, P, LIGHT + ENV2 + od + "UnresolvedLambertianSphere<RGB> u(units::Meter{rad}, h, RGB{a0, a1, a2}); o[3] = 1; try { u.resolve_irradiance(S, ls); o[3] = 0; } catch (...) {} " + GET)
        w("asteroid_" + k, P.replace("double rad", "double H, double G"), LIGHT + ENV2 + od + "UnresolvedAsteroid<RGB> u(H, G, h, RGB{a0, a1, a2}); o[3] = 1; try { u.resolve_irradiance(S, ls); o[3] = 0; } catch (...) {} " + GET)
    w("sphere_gray", POS + "double R, float L0, float L1, float L2, double rad, float al" + T, LIGHT + ENV2 + ORDER["second"] + "UnresolvedLambertianSphere<RGB> u(units::Meter{rad}, h, al); u.resolve_irradiance(S, ls); " + GET)
    w("asteroid_gray", POS + "double R, float L0, float L1, float L2, double H, double G, float al" + T, LIGHT + ENV2 + ORDER["second"] + "UnresolvedAsteroid<RGB> u(H, G, h, al); u.resolve_irradiance(S, ls); " + GET)
    # stars
    SD = "double ra, double dec, float pr, float pd, float temp, double sa, "
    SDS = "StarData d; d.RA = ra; d.DEC = dec; d.pmRA = pr; d.pmDEC = pd; d.temperature = temp; d.solid_angle = sa; "
    GS = "auto q = s.get_direction(); auto e = s.get_irradiance(); " + v3(0, "q") + s3(3, "e")
    w("star_years", SD + "double y, double z", SDS + "Star<RGB> s(d, y); " + GS)
    w("star_update", SD + "double y, double z", SDS + "Star<RGB> s(d, y); StarData g = d; g.RA = dec; g.DEC = ra; g.temperature = temp + 50; s.update_direction(g, z); " + GS)
    w("star_time", SD + "Time t", SDS + "Star<RGB> s(d, t); " + GS)
    w("star_uptime", SD + "double y, Time t", SDS + "Star<RGB> s(d, y); s.update_direction(d, t); " + GS)
    w("star_plain", "double x, double y, double z, float p0, float p1, float p2", "Star<RGB> s(Vec3<double>{x, y, z}, RGB{p0, p1, p2}); " + GS)
    # media
    MED = "auto df = std::make_shared<ConstantDensityField<RGB>>(RGB{a0, a1, a2}, RGB{s0, s1, s2}); auto pf = std::make_shared<IsotropicPhaseFunction<RGB>>(); Medium<RGB> m(df, pf); Ray<RGB> ray(Vec3<float>{ix, iy, iz}, Vec3<float>{lx, ly, lz}); R2 sp(u, 0.5f); "
    MP = POS + "float a0, float a1, float a2, float s0, float s1, float s2, float u, float t"
    w("medium", MP, MED + "auto T = m.evaluate_transmittance(ray, t, sp); " + s3(0, "T") + "auto p = m.get_properties(Vec3<float>{u, t, u}); " + s3(3, "p.absorption") + s3(6, "p.scattering") + "auto x = p.extinction(); " + s3(9, "x") + "o[12] = &m.get_phase_function() == pf.get();")
    w("free_path", MP, MED + "auto q = m.sample_free_path(ray, sp); o[0] = q.has_value(); if (q) { o[1] = q->t; " + v3(2, "q->p") + v3(5, "q->wo") + s3(8, "q->properties.absorption") + s3(11, "q->properties.scattering") + "o[14] = q->phase_function == pf.get(); o[15] = q->is_valid(); } MediumInteraction<RGB> z; o[16] = z.is_valid();")
    w("isotropic", POS + "float u1, float u2", "IsotropicPhaseFunction<RGB> f; R2 sp(u1, u2); auto s = f.sample(Vec3<float>{ix, iy, iz}, sp); " + v3(0, "s.wi") + "o[3] = s.p; o[4] = f.evaluate(Vec3<float>{ix, iy, iz}, Vec3<float>{lx, ly, lz});")
    t.append("using MP = std::shared_ptr<Medium<RGB>>; MP mk() { return std::make_shared<Medium<RGB>>(std::make_shared<ConstantDensityField<RGB>>(), std::make_shared<IsotropicPhaseFunction<RGB>>()); }")
    for s in SEQ:
        b = "Primitive<RGB> A_, B_, C_, D_; MP ma = mk(), mb = mk(), mc = mk(); A_.medium = ma; B_.medium = mb; C_.medium = mc; MediumStack<RGB> st; "
        for i, x in enumerate(s):
            b += "st.toggle(%s); o[%d] = static_cast<double>(st.size()); o[%d] = st.top() == nullptr ? 0 : st.top() == ma.get() ? 1 : st.top() == mb.get() ? 2 : st.top() == mc.get() ? 3 : 9; o[%d] = st.is_empty(); " % ("nullptr" if x == "N" else "&%s_" % x, 3 * i, 3 * i + 1, 3 * i + 2)
        w("stack_" + "".join(s), "int d", b)
    t.append("}")
    return "\n".join(t)


cc.FUN["verif_bb"] = lambda i, T: (1 + 0.5 * i) * (1 + 1e-3 * T)
cc.FUN["verif_vm"] = lambda i, m, a: (2 + i) * 10 ** (-0.4 * m) * (0.1 + a)
cc.FUN["verif_years"] = lambda: 17.25


def run(ctx):
    W = fx.Wit(ctx, "w_m06.cpp", text())
    W.scoped()
    P = W.P

    def bins(I, n, f, st, fr, fn):
        """A spectral value with the given components."""
        rec = P.records[P.ty(P.deref_type(f.ret))["rec"]]["fields"][0]["d"]
        a = I.tmp(n, fr, "sx")
        I.kill_sub(st, a)
        for i in range(3):
            I.store(st, tm.el(tm.fld(a, rec), tm.c(i)), fn(i))
        return a

    def bb(I, n, f, this, args, argn, on, st, fr):
        return bins(I, n, f, st, fr, lambda i: tm.call("verif_bb", tm.c(i), args[0]))

    def vm(I, n, f, this, args, argn, on, st, fr):
        rec = P.records[P.ty(P.deref_type(f.ret))["rec"]]["fields"][0]["d"]
        al = args[1]
        return bins(I, n, f, st, fr, lambda i: tm.call("verif_vm", tm.c(i), args[0], I.load(st, tm.el(tm.fld(al, rec), tm.c(i)), ("f", 32))))

    def years(I, n, f, this, args, argn, on, st, fr):
        a = args[0]
        if not tm.isc(a):
            return NotImplemented
        return tm.call("verif_years") if a.a[0] == TT[0] else tm.call("verif_years_other")
    TT = [None]
    def lock(I, n, f, this, args, argn, on, st, fr):
        # (every object of a witness lives to its end)
        return I.rec_result(n, st, fr, I.load(st, this))
    models = {"std::weak_ptr::lock": (lock, False), "huira::black_body": (bb, True), "huira::visual_magnitude_to_irradiance": (vm, True), "huira::Time::julian_years_since_j2000": (years, True)}
    TT[0] = ctx_enum(P, "huira::TimeScale", "TT")

    def go(name, **k):
        o = W.run(name, unroll=24, budget=2000000, models=models, **k)
        wh = fx.where_of(P, o.fn, last=True, skip=("Vec", "SpectralBins", "Quantity", "units"))[0]
        if not o.ok:
            ctx.count("undetermined")
            ctx.notes.append("%s: no result" % name)
            return None, wh, {}
        return o, wh, {p["n"]: o.arg(i).t for i, p in enumerate(o.fn.params)}

    def out(o, i):
        return o.load(tm.el(o.r.val, tm.c(i)))

    def pts(rule, what, o, i, names, vs, want, wh, rel=1e-5, atol=1e-7, **k):
        es = [({names[n]: x for n, x in v.items() if n in names}, v) for v in vs]
        back = {id(e): v for e, v in es}
        fx.points(ctx, rule, what, out(o, i), [e for e, _ in es], lambda e: want(back[id(e)]), wh, rel=rel, atol=atol, site=what,
                  say=lambda e: ", ".join("%s=%.6g" % (n, x) for n, x in back[id(e)].items()), **k)

    def at(o, i, names, v):
        t = out(o, i)
        return cc.concrete(t.t if hasattr(t, "t") else t, {names[n]: x for n, x in v.items() if n in names})
    rnd = random.Random(3)
    U = lambda a, b: round(rnd.uniform(a, b), 4)

    def where(cls, fn, default):
        for f in P.fns.values():
            if f.clskey == "huira::" + cls and f.n == fn and f.has_body:
                return "%s:%s" % (f.file, f.line)
        return default

    # ---------------------------------------------------------------- lights
    pw = [{"R": R, "p0": 0.5, "p1": 7.0, "p2": 120.0, "p": p, "x": 0.1, "y": 0.2, "z": 0.3} for R in (1e-7, 0.2, 1.0, 35.0) for p in (0.0, 1.0, 300.0, 5778.0)]
    rr = lambda v: max(v["R"], 1e-5)
    o, wh, nm = go("light_spectral_power")
    wh = where("SphereLight", "set_spectral_power", wh)
    if o:
        for i in range(3):
            pts("lights", "radiance of a spectral power, bin %d" % i, o, i, nm, pw, lambda v, i=i: v["p%d" % i] / (4 * PI * PI * rr(v) ** 2), wh)
    o, wh, nm = go("light_radiance")
    if o:
        for i in range(3):
            pts("lights", "radiance of a spectral radiance, bin %d" % i, o, i, nm, pw, lambda v, i=i: v["p%d" % i], wh)
        pts("lights", "radius", o, 3, nm, pw, rr, wh)
    o, wh, nm = go("light_power")
    wh = where("SphereLight", "set_spectral_power", wh)
    if o:
        share = [at(o, 4 + i, nm, pw[0]) for i in range(3)]
        if None in share or abs(sum(share) - 1) > 1e-5:
            ctx.notes.append("from_total is not determined")
            share = None
        else:
            for i in range(3):
                pts("lights", "radiance of a total power, bin %d" % i, o, i, nm, pw, lambda v, i=i: share[i] * v["p"] / (4 * PI * PI * rr(v) ** 2), wh)
    o, wh, nm = go("light_bb")
    if o:
        for i in range(3):
            pts("lights", "radiance of a temperature, bin %d" % i, o, i, nm, pw, lambda v, i=i: cc.FUN["verif_bb"](i, v["p"]), wh)
        pts("lights", "radius of a black body", o, 3, nm, pw, rr, wh)
    base = []
    for _ in range(40):
        d = {k: U(-4, 4) for k in ("ix", "iy", "iz", "lx", "ly", "lz")}
        d.update(R=rnd.choice([0.01, 0.5, 1.5, 3.0, 6.0]), L0=0.4, L1=2.5, L2=11.0, u1=U(0.02, 0.98), u2=U(0.02, 0.98))
        base.append(d)
    base += [dict(ix=0, iy=0, iz=0, lx=0, ly=0, lz=z, R=1.0, L0=1.0, L1=2.0, L2=3.0, u1=0.3, u2=0.8) for z in (3.0, -3.0, 0.5)]
    base += [dict(ix=0, iy=0, iz=0, lx=1e4, ly=2e3, lz=z, R=1.0, L0=1.0, L1=2.0, L2=3.0, u1=0.3, u2=0.8) for z in (3.0, -3.0)]
    vec = lambda v: [v["lx"] - v["ix"], v["ly"] - v["iy"], v["lz"] - v["iz"]]
    dist = lambda v: math.sqrt(sum(x * x for x in vec(v)))
    outside = lambda v: dist(v) > v["R"]

    def omega(v):
        s2 = (v["R"] / dist(v)) ** 2
        w = 2 * PI * (s2 / (1 + math.sqrt(1 - s2)))  # 2 pi (1 - cos)
        return w
    o, wh, nm = go("light_sample")
    wh = where("SphereLight", "sample_li", wh)
    if o:
        pts("light sampling", "a direction is sampled exactly outside the sphere", o, 0, nm, base, lambda v: float(outside(v)), wh)
        ob = [v for v in base if outside(v) and dist(v) > 1.01 * v["R"]]
        near = [v for v in ob if omega(v) > 1e-5]
        far = [dict(v, lx=1e5 * v["lx"], ly=1e5 * v["ly"], lz=1e5 * v["lz"]) for v in ob[:6]]
        pts("light sampling", "pdf is 1 / solid angle", o, 7, nm, near, lambda v: 1 / omega(v), wh, rel=1e-4)
        pts("light sampling", "pdf of a distant light is 1 / solid angle", o, 7, nm, far, lambda v: 1 / omega(v), wh, rel=1e-3)
        pts("light sampling", "pdf_li agrees with the sample", o, 9, nm, near, lambda v: 1 / omega(v), wh, rel=1e-4)
        for i in range(3):
            pts("light sampling", "Li bin %d is the light's radiance" % i, o, 4 + i, nm, ob, lambda v, i=i: v["L%d" % i], wh)
        bad = und = None
        for v in near:
            wi = [at(o, 1 + i, nm, v) for i in range(3)]
            ds = at(o, 8, nm, v)
            if any(not isinstance(x, float) for x in wi + [ds]):
                und = v
                continue
            c = sum(a * b for a, b in zip(wi, vec(v))) / dist(v)
            l2 = sum(a * a for a in wi)
            cm = math.sqrt(1 - (v["R"] / dist(v)) ** 2)
            if abs(l2 - 1) > 1e-5 or c < cm - 1e-5:
                bad = bad or (v, "the direction %s does not point into the light" % (["%.5g" % x for x in wi],))
                continue
            h = [ds * a - b for a, b in zip(wi, vec(v))]
            b_ = c * dist(v)
            first = b_ - math.sqrt(max(0.0, b_ * b_ - dist(v) ** 2 + v["R"] ** 2))
            if abs(ds - first) > 2e-3 * dist(v):
                bad = bad or (v, "the distance %.6g is not the first intersection %.6g" % (ds, first))
                continue
            d = []
            for k in ("u1", "u2"):
                p, q = (dict(v, **{k: v[k] + s}) for s in (1e-5, -1e-5))
                x, y = ([at(o, 1 + i, nm, e) for i in range(3)] for e in (p, q))
                if None in x + y:
                    und = v
                    break
                d.append([(s - t) / 2e-5 for s, t in zip(x, y)])
            else:
                cr = [d[0][1] * d[1][2] - d[0][2] * d[1][1], d[0][2] * d[1][0] - d[0][0] * d[1][2], d[0][0] * d[1][1] - d[0][1] * d[1][0]]
                j = math.sqrt(sum(x * x for x in cr))
                if abs(j - omega(v)) > 1e-3 * omega(v):
                    bad = bad or (v, "the directions have density %.6g, the reported pdf is of %.6g" % (1 / j, 1 / omega(v)))
        if und and not bad:
            ctx.count("undetermined")
            ctx.notes.append("light sampling: not evaluated")
        else:
            ctx.count("pointwise")
            ctx.ob(bad is None, "light sampling", wh, "" if bad is None else "%s at %s" % (bad[1], ", ".join("%s=%.5g" % x for x in bad[0].items())), "sampled directions")
    o, wh, nm = go("light_pdf")
    if o:
        wh = where("SphereLight", "pdf_li", wh)
        vs = []
        for v in base:
            D = dist(v)
            if not outside(v):
                vs.append((dict(v, wx=0.6, wy=0.8, wz=0.0), 0.0))
                continue
            if D < 1.02 * v["R"] or omega(v) < 1e-6:
                continue
            a = [x / D for x in vec(v)]
            e = [a[1], -a[0], 0.0] if abs(a[2]) < 0.9 else [0.0, a[2], -a[1]]
            n = math.sqrt(sum(x * x for x in e))
            th = math.asin(v["R"] / D)
            for f, w in ((0.0, 1), (0.7, 1), (0.95, 1), (1.05, 0), (1.6, 0)):
                x = th * f
                d = [a[i] * math.cos(x) + e[i] / n * math.sin(x) for i in range(3)]
                vs.append((dict(v, wx=d[0], wy=d[1], wz=d[2]), 1 / omega(v) if w else 0.0))
            vs.append((dict(v, wx=-a[0], wy=-a[1], wz=-a[2]), 0.0))
        wt = {id(v): w for v, w in vs}
        pts("light sampling", "pdf_li of a direction", o, 0, nm, [v for v, _ in vs], lambda v: wt[id(v)], wh, rel=1e-4)
        wh = where("SphereLight", "irradiance_at", wh)
        for i in range(3):
            pts("lights", "irradiance bin %d" % i, o, 1 + i, nm, [dict(v, wx=1, wy=0, wz=0) for v in base], lambda v, i=i: v["L%d" % i] * PI * (v["R"] / dist(v)) ** 2 if outside(v) else 0.0, wh)

    # ---------------------------------------------------------------- unresolved objects
    ue = [dict(p0=0.5, p1=2.0, p2=9.0, p=p, q=5.0, ix=a, iy=b, iz=c) for p in (0.0, 3.0, 250.0) for a, b, c in ((3.0, 4.0, 0.0), (0.1, -2.0, 7.0), (-40.0, 9.0, 1.0))]
    d2 = lambda v: v["ix"] ** 2 + v["iy"] ** 2 + v["iz"] ** 2
    o, wh, nm = go("obj_spectral")
    if o:
        for i in range(3):
            pts("unresolved objects", "spectral irradiance, bin %d" % i, o, i, nm, ue, lambda v, i=i: v["p%d" % i], wh)
    if share:
        o, wh, nm = go("obj_total")
        if o:
            for i in range(3):
                pts("unresolved objects", "total irradiance, bin %d" % i, o, i, nm, ue, lambda v, i=i: v["p"] * share[i], wh)
        o, wh, nm = go("obj_set")
        if o:
            for i in range(3):
                pts("unresolved objects", "set_irradiance, bin %d" % i, o, i, nm, ue, lambda v, i=i: v["p%d" % i], wh)
                pts("unresolved objects", "irradiance of a new object, bin %d" % i, o, 3 + i, nm, ue, lambda v: 0.0, wh)
                pts("unresolved objects", "set_irradiance of a total, bin %d" % i, o, 6 + i, nm, ue, lambda v, i=i: v["p"] * share[i], wh)
        o, wh, nm = go("em_total")
        wh = where("UnresolvedEmitter", "resolve_irradiance", wh)
        if o:
            for i in range(3):
                pts("unresolved objects", "emitter of a total power, bin %d" % i, o, i, nm, ue, lambda v, i=i: v["p"] * share[i] / (4 * PI * d2(v)), wh)
    o, wh, nm = go("em_spectral")
    wh = where("UnresolvedEmitter", "resolve_irradiance", wh)
    if o:
        for i in range(3):
            pts("unresolved objects", "emitter of a spectral power, bin %d" % i, o, i, nm, ue, lambda v, i=i: v["p%d" % i] / (4 * PI * d2(v)), wh)

    us = []
    for _ in range(14):
        v = {k: U(-6, 6) for k in ("ix", "iy", "iz")}
        v.update({k: U(-12, 12) for k in ("lx", "ly", "lz")})
        v.update(R=U(0.1, 1.0), L0=0.4, L1=2.5, L2=11.0, rad=U(0.01, 0.2), a0=0.15, a1=0.55, a2=0.95, al=0.35, H=U(5, 22), G=U(-0.1, 0.5))
        us.append(v)
    us.append(dict(us[0], ix=1.0, iy=2.0, iz=2.0, lx=-1.0, ly=-2.0, lz=-2.0))  # full phase
    us.append(dict(us[0], ix=1.0, iy=2.0, iz=2.0, lx=3.0, ly=6.0, lz=6.0))  # new phase
    us.append(dict(us[0], ix=1.0, iy=2.0, iz=2.0, lx=1.0, ly=2.0, lz=2.05))  # within the light

    def phase(v):
        s = [v["ix"], v["iy"], v["iz"]]
        l = [v["lx"] - v["ix"], v["ly"] - v["iy"], v["lz"] - v["iz"]]
        c = -sum(a * b for a, b in zip(s, l)) / math.sqrt(d2(v) * sum(x * x for x in l))
        return math.acos(max(-1.0, min(1.0, c)))

    def lambert(v, i, al=None):
        r2 = dist(v) ** 2
        E = v["L%d" % i] * PI * v["R"] ** 2 / r2 if r2 > v["R"] ** 2 else 0.0
        a = phase(v)
        return (v["a%d" % i] if al is None else al) * E * 2 / 3 * (math.sin(a) + (PI - a) * math.cos(a)) / PI * v["rad"] ** 2 / d2(v)

    def hg(v, i, al=None):
        a = phase(v)
        t = math.tan(a / 2)
        m = v["H"] - 2.5 * math.log10((1 - v["G"]) * math.exp(-3.33 * t ** 0.64) + v["G"] * math.exp(-1.87 * t ** 1.22)) + 5 * math.log10(dist(v) / AU * math.sqrt(d2(v)) / AU)
        return cc.FUN["verif_vm"](i, m, v["a%d" % i] if al is None else al)
    for nm_, cls, f, vs in (("sphere", "UnresolvedLambertianSphere", lambert, us), ("asteroid", "UnresolvedAsteroid", hg, None)):
        if vs is None:
            s = 1e11
            vs = [dict(v, **{k: v[k] * s for k in ("ix", "iy", "iz", "lx", "ly", "lz")}) for v in us[:14]]
            vs.append(dict(vs[0], ix=1e11, iy=2e11, iz=2e11, lx=-1e11, ly=-2e11, lz=-2e11))
        wh = where(cls, "resolve_irradiance", "")
        for k in ORDER:
            o, _, nm = go("%s_%s" % (nm_, k))
            if not o:
                continue
            miss = k in ("none", "empty")
            if miss or cls == "UnresolvedLambertianSphere":
                # (an asteroid whose phase function is zero has an infinite magnitude)
                pts("unresolved objects", "%s with its light %s in the list is refused" % (nm_, k), o, 3, nm, vs, lambda v, miss=miss: float(miss), wh)
            for i in range(3):
                if miss:
                    pts("unresolved objects", "%s keeps its irradiance when its light is missing (%s), bin %d" % (nm_, k, i), o, i, nm, vs, lambda v: 0.0, wh)
                else:
                    pts("unresolved objects", "%s with its light %s in the list, bin %d" % (nm_, k, i), o, i, nm, vs, lambda v, i=i, f=f: f(v, i), wh, rel=2e-4, atol=0 if nm_ == "asteroid" else 1e-10)
        o, _, nm = go(nm_ + "_gray")
        if o:
            for i in range(3):
                pts("unresolved objects", "%s of a single albedo, bin %d" % (nm_, i), o, i, nm, vs, lambda v, i=i, f=f: f(v, i, v["al"]), wh, rel=2e-4, atol=0 if nm_ == "asteroid" else 1e-10)

    # ---------------------------------------------------------------- stars
    sv = [dict(ra=a, dec=b, pr=pr, pd=pd, temp=5400.0, sa=3e-4, y=y, z=y - 300.0) for a, b in ((0.3, 0.2), (4.1, -1.2), (6.0, 1.4), (2.0, 0.0)) for pr, pd in ((0.0, 0.0), (1e6, -3e6), (-4e6, 2e6)) for y in (-10.0, 0.0, 26.5)]
    mas = PI / (180 * 3600 * 1000)

    def stardir(ra, dec, v, y):
        d = dec + v["pd"] * mas * y
        a = ra + v["pr"] * mas * y / math.cos(d)
        return [math.cos(d) * math.cos(a), math.cos(d) * math.sin(a), math.sin(d)]

    for name, f in (("star_years", lambda v: stardir(v["ra"], v["dec"], v, v["y"])), ("star_update", lambda v: stardir(v["dec"], v["ra"], v, v["z"])), ("star_time", lambda v: stardir(v["ra"], v["dec"], v, 17.25)), ("star_uptime", lambda v: stardir(v["ra"], v["dec"], v, 17.25))):
        o, wh, nm = go(name)
        if not o:
            continue
        for i in range(3):
            pts("stars", "%s: direction %s" % (name, "xyz"[i]), o, i, nm, sv, lambda v, i=i: f(v)[i], where("Star", "compute_direction_", wh), atol=1e-6)
            pts("stars", "%s: irradiance bin %d" % (name, i), o, 3 + i, nm, sv, lambda v, i=i: cc.FUN["verif_bb"](i, v["temp"]) * v["sa"], where("Star", "compute_irradiance_", wh))
    o, wh, nm = go("star_plain")
    if o:
        vs = [dict(x=1.0, y=-2.0, z=2.0, p0=0.1, p1=0.2, p2=0.3), dict(x=0.0, y=0.01, z=0.0, p0=4.0, p1=5.0, p2=6.0)]
        for i in range(3):
            pts("stars", "given direction %s" % "xyz"[i], o, i, nm, vs, lambda v, i=i: v["xyz"[i]] / math.sqrt(v["x"] ** 2 + v["y"] ** 2 + v["z"] ** 2), wh)
            pts("stars", "given irradiance %d" % i, o, 3 + i, nm, vs, lambda v, i=i: v["p%d" % i], wh)

    # ---------------------------------------------------------------- media
    mv = [dict(ix=1.0, iy=-2.0, iz=0.5, lx=0.6, ly=0.0, lz=-0.8, a0=a, a1=2 * a, a2=0.3 * a, s0=s, s1=0.2 * s, s2=1.7 * s, u=u, t=t) for a in (0.0, 0.2, 1.5) for s in (0.0, 0.7) for u in (0.05, 0.4, 0.93) for t in (-1.0, 0.0, 0.3, 4.0)]
    ext = lambda v, i: v["a%d" % i] + v["s%d" % i]
    o, wh, nm = go("medium")
    if o:
        for i in range(3):
            pts("media", "transmittance bin %d" % i, o, i, nm, mv, lambda v, i=i: math.exp(-ext(v, i) * v["t"]) if v["t"] > 0 else 1.0, where("Medium", "evaluate_transmittance", wh))
            pts("media", "absorption bin %d" % i, o, 3 + i, nm, mv, lambda v, i=i: v["a%d" % i], wh)
            pts("media", "scattering bin %d" % i, o, 6 + i, nm, mv, lambda v, i=i: v["s%d" % i], wh)
            pts("media", "extinction bin %d" % i, o, 9 + i, nm, mv, lambda v, i=i: ext(v, i), wh)
        pts("media", "phase function", o, 12, nm, mv[:1], lambda v: 1.0, wh)
    o, wh, nm = go("free_path")
    if o:
        wh = where("Medium", "sample_free_path", wh)
        avg = lambda v: sum(ext(v, i) for i in range(3)) / 3
        pts("media", "a free path is sampled exactly in a medium that extinguishes", o, 0, nm, mv, lambda v: float(avg(v) > 0), wh)
        live = [v for v in mv if avg(v) > 0]
        res = []
        for inv in (0, 1):
            bad = None
            for v in live:
                g = at(o, 1, nm, v)
                x = v["u"] if inv else 1 - v["u"]
                if not isinstance(g, float) or abs(g + math.log(x) / avg(v)) > 1e-4 * (1 + abs(g)):
                    bad = (v, g, -math.log(x) / avg(v))
                    break
            res.append(bad)
        if any(b and not isinstance(b[1], float) for b in res):
            ctx.count("undetermined")
            ctx.notes.append("free path: not evaluated")
        else:
            ctx.count("pointwise")
            b = res[0]
            ctx.ob(None in res, "media", wh, "" if b is None else "the free path %.6g is not exponential with the mean extinction (%.6g) at %s" % (b[1], b[2], ", ".join("%s=%.4g" % x for x in b[0].items())), "free path")
        for i in range(3):
            pts("media", "scattering position %s" % "xyz"[i], o, 2 + i, nm, live, lambda v, i=i: (lambda t: v["i" + "xyz"[i]] + t * v["l" + "xyz"[i]])(at(o, 1, nm, v)), wh, atol=1e-5)
            pts("media", "outgoing direction %s" % "xyz"[i], o, 5 + i, nm, live, lambda v, i=i: -v["l" + "xyz"[i]], wh)
            pts("media", "absorption of the interaction %d" % i, o, 8 + i, nm, live, lambda v, i=i: v["a%d" % i], wh)
            pts("media", "scattering of the interaction %d" % i, o, 11 + i, nm, live, lambda v, i=i: v["s%d" % i], wh)
        for i, w in ((15, 1), (16, 0)):
            pts("media", ("validity", "validity of an empty interaction")[i - 15], o, i, nm, live[:1], lambda v, w=w: float(w), wh)
    o, wh, nm = go("isotropic")
    if o:
        wh = where("IsotropicPhaseFunction", "sample", wh)
        vs = [dict(ix=0.1, iy=0.2, iz=0.9, lx=1.0, ly=0.0, lz=0.0, u1=a, u2=b) for a in (0.05, 0.3, 0.5, 0.8, 0.97) for b in (0.1, 0.4, 0.9)]
        pts("media", "isotropic density", o, 3, nm, vs, lambda v: 1 / (4 * PI), wh)
        pts("media", "isotropic phase function", o, 4, nm, vs, lambda v: 1 / (4 * PI), wh)
        bad = und = None
        for v in vs:
            x = [at(o, i, nm, v) for i in range(3)]
            d = []
            for k in ("u1", "u2"):
                p, q = ([at(o, i, nm, dict(v, **{k: v[k] + s})) for i in range(3)] for s in (1e-5, -1e-5))
                if None in p + q + x:
                    und = v
                    break
                d.append([(s - t) / 2e-5 for s, t in zip(p, q)])
            else:
                cr = [d[0][1] * d[1][2] - d[0][2] * d[1][1], d[0][2] * d[1][0] - d[0][0] * d[1][2], d[0][0] * d[1][1] - d[0][1] * d[1][0]]
                j = math.sqrt(sum(y * y for y in cr))
                if abs(sum(y * y for y in x) - 1) > 1e-5 or abs(j - 4 * PI) > 1e-3 * j:
                    bad = bad or (v, j)
        if und and not bad:
            ctx.count("undetermined")
            ctx.notes.append("isotropic sampling: not evaluated")
        else:
            ctx.count("pointwise")
            ctx.ob(bad is None, "media", wh, "" if bad is None else "the sampled directions are not uniform on the sphere: density %.6g at %s" % (1 / bad[1], bad[0]), "isotropic sampling")
    for s in SEQ:
        o, wh, nm = go("stack_" + "".join(s))
        if not o:
            continue
        wh = where("MediumStack", "toggle", wh)
        st = []
        for i, x in enumerate(s):
            if x in "ABC":
                if x in st:
                    st.remove(x)
                else:
                    st.append(x)
            for j, w in enumerate((len(st), " ABC".index(st[-1]) if st else 0, not st)):
                pts("medium stack", "toggling %s: %s after step %d" % ("".join(s), ("size", "medium on top", "empty")[j], i + 1), o, 3 * i + j, nm, [{}], lambda v, w=w: float(w), wh)
    ctx.require(ctx.cov.get("pointwise", 0) > 300, "photometry")


def ctx_enum(P, key, name):
    """The value of an enumerator."""
    e = P.enum_by_key[key]
    for x in e["v"]:
        if x["n"] == name:
            return int(x["v"])
