"""M03: spectral bins and radiometry compute what their names say.

Witness functions instantiate the public interface over several bin layouts (uniform, edges, pairs; ascending and
descending) with symbolic values; the value graph of every result is compared with the definition.
"""
import math
from sa import fx
from sa import terms as tm
from sa.alg import E, sqrt
from sa.concrete import concrete, NAN, INF

FT = ("f",)
LAY = {  # layout name -> (type, [(min nm, max nm)])
    "U4": ("UniformSpectralBins<4, 400, 800>", [(400 + 100 * i, 500 + 100 * i) for i in range(4)]),
    "U3": ("UniformSpectralBins<3, 900, 2500>", [(900 + 1600 * i / 3, 900 + 1600 * (i + 1) / 3) for i in range(3)]),
    "E3": ("SpectralBinEdges<3, 400, 450, 600, 900>", [(400, 450), (450, 600), (600, 900)]),
    "P2": ("SpectralBins<2, 380, 500, 600, 750>", [(380, 500), (600, 750)]),
    "D2": ("SpectralBins<2, 640, 700, 400, 520>", [(640, 700), (400, 520)]),
    "RGB": ("RGB", [(600, 750), (500, 600), (380, 500)]),
    "V8": ("Visible8", [(380 + 46.25 * i, 380 + 46.25 * (i + 1)) for i in range(8)]),
    "S8": ("SWIR8", [(900 + 200 * i, 900 + 200 * (i + 1)) for i in range(8)]),
}
GRID = {"a": [300, 450, 900], "b": [380, 500, 600, 750], "c": [200, 410, 455, 700, 710, 2000], "d": [100, 3000],
        "e": [1000, 1100, 1200], "f": [100, 200, 300], "g": [390, 395, 1000]}
OPS = {"+": "add", "-": "sub", "*": "mul", "/": "div"}


def text():
    t = ['#include "huira/huira.hpp"', "using namespace huira;", "namespace verif_w {"]
    for n, (ty, bins) in LAY.items():
        t.append("using L%s = %s;" % (n, ty))
        a = "const L%s& a" % n
        for i in range(len(bins)):
            t.append("std::array<double, 16> bin%s_%d() { std::array<double, 16> o{}; Bin x = L%s::get_bin(%d); Bin y = L%s::get_all_bins()[%d]; o[0]=x.min_wavelength; o[1]=x.max_wavelength; o[2]=x.center_wavelength; o[3]=y.min_wavelength; o[4]=y.max_wavelength; o[5]=y.center_wavelength; return o; }" % (n, i, n, i, n, i))
        if n not in ("U4", "P2", "RGB", "E3"):
            continue
        for o, w in OPS.items():
            t.append("L%s %s_ss_%s(%s, const L%s& b) { return a %s b; }" % (n, w, n, a, n, o))
            t.append("L%s %s_sf_%s(%s, float b) { return a %s b; }" % (n, w, n, a, o))
            t.append("L%s %s_sd_%s(%s, double b) { return a %s b; }" % (n, w, n, a, o))
            t.append("L%s %s_fs_%s(%s, float b) { return b %s a; }" % (n, w, n, a, o))
            t.append("L%s %s_as_%s(L%s a, const L%s& b) { a %s= b; return a; }" % (n, w, n, n, n, o))
            t.append("L%s %s_af_%s(L%s a, float b) { a %s= b; return a; }" % (n, w, n, n, o))
        for k, e in (("neg", "-a"), ("pos", "+a"), ("sqrt", "a.sqrt()")):
            t.append("L%s %s_%s(%s) { return %s; }" % (n, k, n, a, e))
        for k in ("total", "magnitude", "max", "min", "integrate"):
            t.append("float %s_%s(%s) { return a.%s(); }" % (k, n, a, k))
        for k in ("valid", "valid_ratio"):
            t.append("bool %s_%s(%s) { return a.%s(); }" % (k, n, a, k))
        t.append("bool eq_%s(%s, const L%s& b) { return a == b; }" % (n, a, n))
        t.append("bool ne_%s(%s, const L%s& b) { return a != b; }" % (n, a, n))
        t.append("L%s from_total_%s(float x) { return L%s::from_total(x); }" % (n, n, n))
        t.append("L%s fill_%s(float x) { return L%s(x); }" % (n, n, n))
        t.append("L%s zero_%s() { return L%s(); }" % (n, n, n))
        t.append("L%s list_%s(%s) { return L%s{%s}; }" % (n, n, ", ".join("float x%d" % i for i in range(len(bins))), n, ", ".join("x%d" % i for i in range(len(bins)))))
        t.append("float iob_%s(%s, double lo, double hi) { return a.integrate_over_band(lo, hi); }" % (n, a))
        t.append("L%s pe_%s() { return L%s::photon_energies(); }" % (n, n, n))
        t.append("L%s bb_%s(double T) { return black_body<L%s>(T, 3); }" % (n, n, n))
        for g, xs in GRID.items():
            t.append("L%s iod_%s_%s(%s) { return L%s::integrate_over_data(std::vector<double>{%s}, std::vector<float>{%s}); }" % (
                n, n, g, ", ".join("float v%d" % i for i in range(len(xs))), n, ", ".join("%d." % x for x in xs), ", ".join("v%d" % i for i in range(len(xs)))))
        t.append("L%s cr_%s(const RGB& a) { return convert_rgb_to_spectral<L%s>(a); }" % (n, n, n))
    for n in ("U3", "D2", "S8", "V8"):
        t.append("L%s cr_%s(const RGB& a) { return convert_rgb_to_spectral<L%s>(a); }" % (n, n, n))
    t.append('''
bool iod_len(float p) { LP2::integrate_over_data(std::vector<double>{1,2,3}, std::vector<float>{p,p}); return true; }
bool iod_empty(float) { LP2::integrate_over_data(std::vector<double>(), std::vector<float>()); return true; }
bool iod_eq(float p) { LP2::integrate_over_data(std::vector<double>{1,2,2}, std::vector<float>{p,p,p}); return true; }
bool iod_desc(float p) { LP2::integrate_over_data(std::vector<double>{1,3,2}, std::vector<float>{p,p,p}); return true; }
double phe(double l) { return photon_energy(l); }
double pl(double t, double l) { return plancks_law(t, std::vector<double>{500e-9, l})[1]; }
std::array<double, 16> ls5(double a, double b) { std::array<double, 16> o{}; auto v = linspace(a, b, 5); for (int i = 0; i < 5; ++i) o[static_cast<std::size_t>(i)] = v[static_cast<std::size_t>(i)]; o[5] = static_cast<double>(v.size()); return o; }
std::array<double, 16> ls2(float a, float b) { std::array<double, 16> o{}; auto v = linspace(a, b, 2); o[0] = static_cast<double>(v[0]); o[1] = static_cast<double>(v[1]); o[2] = static_cast<double>(v.size()); return o; }
std::array<double, 16> ls1(double a, double b) { std::array<double, 16> o{}; auto v = linspace(a, b, 1); o[0] = v[0]; o[1] = static_cast<double>(v.size()); return o; }
double in3(double a, double b, double c, double p, double q, double r) { return integrate(std::vector<double>{a,b,c}, std::vector<double>{p,q,r}); }
double in1(double a, double p) { return integrate(std::vector<double>{a}, std::vector<double>{p}); }
std::array<double, 16> jv() { std::array<double, 16> o{}; std::vector<double> l; auto e = johnson_vband_approximation(5, l); for (int i = 0; i < 5; ++i) { o[static_cast<std::size_t>(i)] = l[static_cast<std::size_t>(i)]; o[static_cast<std::size_t>(5+i)] = e[static_cast<std::size_t>(i)]; } return o; }
double vb(double m) { return v_band_irradiance(m); }
std::array<double, 16> vm_P2(double m, const LP2& al) { std::array<double, 16> o{}; LP2 x = visual_magnitude_to_irradiance<LP2>(m, al); o[0] = static_cast<double>(x[0]); o[1] = static_cast<double>(x[1]); return o; }
std::array<double, 16> vm_D2(double m, const LD2& al) { std::array<double, 16> o{}; LD2 x = visual_magnitude_to_irradiance<LD2>(m, al); o[0] = static_cast<double>(x[0]); o[1] = static_cast<double>(x[1]); return o; }
double k_c() { return SPEED_OF_LIGHT<double>(); }
double k_h() { return H_PLANCK<double>(); }
double k_k() { return K_BOLTZ<double>(); }
double k_au() { return AU<double>(); }
double k_pi() { return PI<double>(); }
double k_ipi() { return INV_PI<double>(); }
double k_hpi() { return HALF_PI<double>(); }
}
''')
    return "\n".join(t)


H, C, KB = 6.62607015e-34, 299792458.0, 1.380649e-23


def planck(t, l):
    return 2 * H * C * C / l ** 5 / (math.exp(H * C / (l * KB * t)) - 1)


def mean_over(xs, vs, lo, hi):
    """Mean of the piecewise linear function through (xs, vs) over [lo, hi], inside the data."""
    tot = E(0)
    for i in range(len(xs) - 1):
        a, b = max(lo, xs[i]), min(hi, xs[i + 1])
        if a >= b:
            continue
        f = lambda x: vs[i] * (1 - (x - xs[i]) / (xs[i + 1] - xs[i])) + vs[i + 1] * ((x - xs[i]) / (xs[i + 1] - xs[i]))
        tot = tot + (f(a) + f(b)) * ((b - a) / 2)
    return tot / (hi - lo)


def run(ctx):
    W = fx.Wit(ctx, "w_m03.cpp", text())
    W.scoped()
    P = W.P

    def go(nm, **kw):
        o = W.run(nm, **dict(dict(unroll=12, budget=4000000), **kw))
        wh = fx.where_of(P, o.fn, last=True)[0]
        if not o.ok:
            o.never("returns", wh, "%s never returns a value" % nm, nm)
            return None, wh
        ctx.sample(nm)
        return o, wh

    def ck(rule, nm, got, want, wh, rel=1e-6, **kw):
        """got == want; a constant is compared relative to its own size."""
        got = E(got)
        if got.t.op == "c" and isinstance(want, (int, float)):
            ok = abs(got.t.a[0] - want) <= rel * max(abs(want), 1e-300)
            ctx.count("formulas")
            ctx.ob(ok, rule, wh, "%s is %.9g; by definition it is %.9g" % (nm, got.t.a[0], want), nm)
            return
        # values of very small or large size: compare after scaling
        fx.check(ctx, rule, nm, got, want, wh, site=nm, **kw)

    out = lambda o, p, i: E(o.load(tm.el(o.r.val, tm.c(i))))
    # ---- constants
    for k, v in (("k_c", C), ("k_h", H), ("k_k", KB), ("k_au", 149597870700.0), ("k_pi", math.pi), ("k_ipi", 1 / math.pi), ("k_hpi", math.pi / 2)):
        o, wh = go(k)
        if o:
            ck("constants", k, o.val, v, wh, rel=1e-12)
    # ---- layouts
    for n, (ty, bins) in LAY.items():
        for i, (lo, hi) in enumerate(bins):
            o, wh = go("bin%s_%d" % (n, i))
            if o:
                for j, w in enumerate((lo, hi, (lo + hi) / 2) * 2):
                    ck("bins", "%s bin %d %s" % (n, i, ("min", "max", "center")[j % 3]), out(o, 0, j), w * 1e-9, wh, rel=1e-9)
    for n in ("U4", "P2", "RGB", "E3"):
        bins = LAY[n][1]
        N = len(bins)
        wid = [(h - l) * 1e-9 for l, h in bins]

        def S(o, p):  # the bins of a spectral parameter
            a = o.paraddr(p)
            return [rd(o, a, i) for i in range(N)]

        def res(o, cnt=N):
            return [o.load(data(o.r.val, i)) for i in range(cnt)]
        rec = next((r for r in P.records.values() if r["key"] == "huira::SpectralBins" and len(r.get("fields", ())) == 1), None)
        ctx.require(rec is not None, "SpectralBins storage")
        ds = {r["fields"][0]["d"] for r in P.records.values() if r["key"] == "huira::SpectralBins" and r.get("fields")}

        def data(a, i):
            return a, i

        def vals(o, base, st=None):
            """The stored values of the SpectralBins object at base."""
            best = None
            s = st if st is not None else o.r.st
            for d in sorted(ds):
                xs = [tm.el(tm.fld(base, d), tm.c(i)) for i in range(N)]
                if any(x in s.store for x in xs):
                    best = d
            return [o.I.load(s, tm.el(tm.fld(base, best if best is not None else dd[n]), tm.c(i)), FT) for i in range(N)]
        # the storage field of this layout: from its record
        dd = {}
        for f in P.fns.values():
            if f.n == "zero_" + n:
                dd[n] = P.records[P.ty(P.deref_type(f.ret))["rec"]]["fields"][0]["d"]
        ctx.require(n in dd, "storage of " + n)
        from sa import absint
        fresh = absint.State

        def arg(o, p):
            a = o.paraddr(p)
            return [E(o.I.load(fresh(), tm.el(tm.fld(a, dd[n]), tm.c(i)), FT)) for i in range(N)]

        def got(o):
            return [E(o.I.load(o.r.st, tm.el(tm.fld(o.r.val, dd[n]), tm.c(i)), FT)) for i in range(N)]

        def each(rule, nm, want, **kw):
            o, wh = go(nm)
            if o:
                w = want(o)
                for i, g in enumerate(got(o)):
                    ck(rule, "%s[%d]" % (nm, i), g, w[i], wh, **kw)
        fn = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}
        for w, f in fn.items():
            each("operators", "%s_ss_%s" % (w, n), lambda o: [f(a, b) for a, b in zip(arg(o, 0), arg(o, 1))])
            each("operators", "%s_as_%s" % (w, n), lambda o: [f(a, b) for a, b in zip(arg(o, 0), arg(o, 1))])
            for k in ("sf", "sd", "af"):
                each("operators", "%s_%s_%s" % (w, k, n), lambda o: [f(a, o.arg(1)) for a in arg(o, 0)])
            each("operators", "%s_fs_%s" % (w, n), lambda o: [f(o.arg(1), a) for a in arg(o, 0)])
        each("operators", "neg_" + n, lambda o: [-a for a in arg(o, 0)])
        each("operators", "pos_" + n, lambda o: arg(o, 0))
        each("operators", "sqrt_" + n, lambda o: [sqrt(a) for a in arg(o, 0)])
        each("construction", "fill_" + n, lambda o: [o.arg(0)] * N)
        each("construction", "zero_" + n, lambda o: [E(0)] * N)
        each("construction", "list_" + n, lambda o: [o.arg(i) for i in range(N)])
        each("from_total", "from_total_" + n, lambda o: [o.arg(0) * (w / sum(wid)) for w in wid])

        def one(rule, nm, want, sc=1.0, **kw):
            o, wh = go(nm)
            if o:
                ck(rule, nm, o.val * sc, want(o), wh, **kw)
        tot = lambda xs: sum(xs[1:], xs[0])
        one("reductions", "total_" + n, lambda o: tot(arg(o, 0)))
        one("reductions", "magnitude_" + n, lambda o: sqrt(tot([a * a for a in arg(o, 0)])))
        one("reductions", "integrate_" + n, lambda o: tot([a * (w * 1e9) for a, w in zip(arg(o, 0), wid)]), sc=1e9)
        # ---- order statistics, predicates and comparisons on every class of value
        for k in ("max", "min"):
            o, wh = go("%s_%s" % (k, n))
            if o:
                a = [x.t for x in arg(o, 0)]
                bad = None
                und = False
                import itertools
                ranks = range(N) if N > 1 else [0]
                for p in itertools.product(ranks, repeat=N):
                    v = concrete(o.val.t, dict(zip(a, [float(x) for x in p])))
                    if v is None:
                        und = True
                    elif v != (max(p) if k == "max" else min(p)):
                        bad = p
                        break
                verdict(ctx, "reductions", "%s_%s" % (k, n), wh, bad, und, "%s() of values ordered like %s is not their %simum" % (k, bad, k))
        cls = {"valid": lambda v: v == v and 0 <= v < INF, "valid_ratio": lambda v: v == v and 0 <= v <= 1}
        reps = [NAN, INF, -INF, -1.0, -1e-30, -0.0, 0.0, 0.5, 1.0, 1.0 + 2 ** -20, 7.0]
        for k, pr in cls.items():
            o, wh = go("%s_%s" % (k, n))
            if o:
                a = [x.t for x in arg(o, 0)]
                bad, und = None, False
                for i in range(N):
                    for v in reps:
                        vs = [0.25] * N
                        vs[i] = v
                        g = concrete(o.val.t, dict(zip(a, vs)))
                        if g is None:
                            und = True
                        elif bool(g) != pr(v):
                            bad = (v, i)
                verdict(ctx, "predicates", "%s_%s" % (k, n), wh, bad, und, "%s() answers %s for a spectrum with %s" % (k, "no" if bad and pr(bad[0]) else "yes", "the value %s in bin %d" % bad if bad else ""))
        for k in ("eq", "ne"):
            o, wh = go("%s_%s" % (k, n))
            if o:
                a, b = [x.t for x in arg(o, 0)], [x.t for x in arg(o, 1)]
                bad, und = None, False
                for i in range(N + 1):
                    e = dict(zip(a + b, [float(j) for j in range(N)] * 2))
                    if i < N:
                        e[b[i]] = 99.0
                    g = concrete(o.val.t, e)
                    if g is None:
                        und = True
                    elif bool(g) != ((i == N) == (k == "eq")):
                        bad = i
                verdict(ctx, "predicates", "%s_%s" % (k, n), wh, bad, und, "operator%s of spectra that differ %s is wrong" % ("==" if k == "eq" else "!=", "in bin %s" % bad if bad != N else "nowhere"))
        # ---- integrals over a band: every relation of the band to the bins
        o, wh = go("iob_" + n)
        if o:
            a = [x.t for x in arg(o, 0)]
            lo, hi = o.arg(1).t, o.arg(2).t
            edges = sorted({e for b in bins for e in b})
            pts = sorted(set([edges[0] - 50, edges[-1] + 50] + edges + [(p + q) / 2 for p, q in zip(edges, edges[1:])]))
            bad, und = None, False
            for x in pts:
                for y in pts:
                    if y < x:
                        continue
                    for i in range(N):
                        e = dict(zip(a, [float(j == i) for j in range(N)]))
                        e[lo], e[hi] = x * 1e-9, y * 1e-9
                        g = concrete(o.val.t, e)
                        w = max(0.0, min(y, bins[i][1]) - max(x, bins[i][0])) * 1e-9
                        if g is None:
                            und = True
                        elif abs(g - w) > 1e-6 * 1e-7:
                            bad = (x, y, i, g, w)
            verdict(ctx, "integrals", "iob_" + n, wh, bad, und, "integrate_over_band(%s nm, %s nm) weighs bin %s with %s m; it overlaps the band by %s m" % (bad or (0,) * 5))
        # ---- physics per bin
        each("photon energy", "pe_" + n, lambda o: [H * C / ((l + h) / 2 * 1e-9) for l, h in bins])
        o, wh = go("bb_" + n)
        if o:
            T = o.arg(0).t
            bad, und = None, False
            for i, g in enumerate(got(o)):
                l, h = (x * 1e-9 for x in bins[i])
                for t in (3000.0, 5778.0, 9123.0):
                    m = (l + h) / 2
                    w = ((planck(t, l) + planck(t, m)) / 2 + (planck(t, m) + planck(t, h)) / 2) * (h - l) / 2
                    v = concrete(g.t, {T: t})
                    if v is None:
                        und = True
                    elif abs(v - w) > 1e-5 * w:
                        bad = (t, i, v, w)
            verdict(ctx, "black body", "bb_" + n, wh, bad, und, "black_body(%s K) with 3 steps is %s in bin %s; the trapezoid rule over Planck's law gives %s" % ((bad[0], bad[2], bad[1], bad[3]) if bad else (0,) * 4))
        for g, xs in GRID.items():
            o, wh = go("iod_%s_%s" % (n, g))
            if not o:
                continue
            vs = [o.arg(i) for i in range(len(xs))]
            for i, r in enumerate(got(o)):
                l, h = bins[i]
                nm = "iod_%s_%s[%d]" % (n, g, i)
                if h <= xs[0] or l >= xs[-1]:
                    if l != xs[-1]:
                        ck("sampled data", nm, r, E(0), wh)
                elif l >= xs[0] and h <= xs[-1]:
                    ck("sampled data", nm, r, mean_over(xs, vs, l, h), wh)
        # ---- RGB to spectral
    rgb = LAY["RGB"][1]
    for n in ("U4", "P2", "RGB", "E3", "U3", "D2", "S8", "V8"):
        bins = LAY[n][1]
        o, wh = go("cr_" + n)
        if not o:
            continue
        fd = P.records[P.ty(P.deref_type(o.fn.ret))["rec"]]["fields"][0]["d"]
        rd = P.records[P.ty(P.deref_type(o.fn.params[0]["t"]))["rec"]]["fields"][0]["d"]
        from sa import absint
        s = [E(o.I.load(absint.State(), tm.el(tm.fld(o.paraddr(0), rd), tm.c(i)), FT)) for i in range(3)]
        ov = min(750, bins[-1][1]) - max(380, bins[0][0])
        lo, hi = min(b[0] for b in bins), max(b[1] for b in bins)
        ov2 = min(750, hi) - max(380, lo)
        if (ov > 37) != (ov2 > 37):
            continue  # descending layouts: what counts as overlap is not documented
        for i, (l, h) in enumerate(bins):
            g = E(o.I.load(o.r.st, tm.el(tm.fld(o.r.val, fd), tm.c(i)), FT))
            if n == "RGB":
                w = s[i]
            elif ov > 37:
                w = sum((s[k] * (max(0.0, min(h, b[1]) - max(l, b[0])) / (h - l)) for k, b in enumerate(rgb)), E(0))
            else:
                w = (s[0] + s[1] + s[2]) / 3
            ck("rgb to spectral", "cr_%s[%d]" % (n, i), g, w, wh, tol=1e-6)
    # ---- refusals
    for k, m in (("iod_len", "different lengths"), ("iod_empty", "no samples"), ("iod_eq", "a repeated wavelength"), ("iod_desc", "descending wavelengths")):
        o = W.run(k, unroll=12)
        ctx.ob(o.stopped or not o.ok, "refusals", fx.where_of(P, o.fn, last=True)[0], "integrate_over_data accepts %s" % m, k)
    # ---- laws
    o, wh = go("phe")
    if o:
        ck("photon energy", "photon_energy", o.val * o.arg(0) * 1e25, E(H * C * 1e25), wh, tol=1e-9)
    o, wh = go("pl")
    if o:
        bad, und = None, False
        for t in (300.0, 5778.0, 11000.0):
            for l in (4e-7, 1.1e-6, 9e-6):
                v = concrete(o.val.t, {o.arg(0).t: t, o.arg(1).t: l})
                if v is None:
                    und = True
                elif abs(v - planck(t, l)) > 1e-9 * planck(t, l):
                    bad = (t, l, v, planck(t, l))
        verdict(ctx, "planck", "plancks_law", wh, bad, und, "plancks_law(%s K, %s m) is %s; Planck's law gives %s" % (bad or (0,) * 4))
    for k, N in (("ls5", 5), ("ls2", 2), ("ls1", 1)):
        o, wh = go(k)
        if o:
            a, b = o.arg(0), o.arg(1)
            for i in range(N):
                ck("linspace", "%s[%d]" % (k, i), out(o, 2, i), a if N == 1 else a + (b - a) * i / (N - 1), wh)
            ck("linspace", "%s size" % k, out(o, 2, N), N, wh)
    o, wh = go("in3")
    if o:
        a, b, c, p, q, r = (o.arg(i) for i in range(6))
        ck("trapezoid", "integrate", o.val, (p + q) / 2 * (b - a) + (q + r) / 2 * (c - b), wh)
    o, wh = go("in1")
    if o:
        ck("trapezoid", "integrate of one sample", o.val, 0, wh)
    o, wh = go("jv")
    if o:
        for i in range(5):
            l = 350e-9 + i * 125e-9
            ck("v band", "lambda[%d]" % i, out(o, 0, i), l, wh, rel=1e-9)
            ck("v band", "response[%d]" % i, out(o, 0, 5 + i), math.exp(-((l - 551e-9) ** 2) / (2 * 38e-9 ** 2)), wh, rel=1e-6)
    o, wh = go("vb")
    if o:
        bad, und = None, False
        for m in (-26.7, 0.0, 1.0, 6.5, 15.0):
            v = concrete(o.val.t, {o.arg(0).t: m})
            w = 8.75e9 * 10 ** (-0.4 * m)
            if v is None:
                und = True
            elif abs(v - w) > 1e-9 * w:
                bad = (m, v, w)
        verdict(ctx, "v band", "v_band_irradiance", wh, bad, und, "v_band_irradiance(%s) is %s; the magnitude scale gives %s" % (bad or (0,) * 3))
    for n in ("P2", "D2"):
        o, wh = go("vm_" + n, unroll=600, budget=30000000)
        if o:
            bins = [(l * 1e-9, h * 1e-9) for l, h in LAY[n][1]]
            want = vismag(bins)
            d = P.records[P.ty(P.deref_type(o.fn.params[1]["t"]))["rec"]]["fields"][0]["d"]
            al = [o.I.load(absint.State(), tm.el(tm.fld(o.paraddr(1), d), tm.c(i)), FT) for i in range(2)]
            for i in range(2):
                bad, und = None, False
                for m in (0.0, 4.8):
                    v = concrete(out(o, 2, i).t, {o.arg(0).t: m, al[i]: 0.7, al[1 - i]: 0.2})
                    w = want[i] * 10 ** (-0.4 * m) * 0.7
                    if v is None:
                        und = True
                    elif abs(v - w) > 1e-4 * w:
                        bad = (m, i, v, w)
                verdict(ctx, "visual magnitude", "vm_%s[%d]" % (n, i), wh, bad, und, "visual_magnitude_to_irradiance(%s), albedo 0.7, is %s W/m2 in bin %s; a solar spectrum of that V magnitude gives %s" % ((bad[0], bad[2], bad[1], bad[3]) if bad else (0,) * 4))
    ctx.explanation = ("%d value graphs of spectral and radiometric functions over %d bin layouts compared with their definitions; piecewise functions on every cell of their input partition" % (ctx.cov.get("formulas", 0), len(LAY)))


def trap(f, lo, hi, n):
    st = (hi - lo) / (n - 1)
    return sum((f(lo + i * st) + f(lo + (i + 1) * st)) / 2 * st for i in range(n - 1))


def vismag(bins):
    """Irradiance per bin of a V = 0 source with a 5778 K spectrum."""
    sun = [trap(lambda l: planck(5778, l), lo, hi, 100) for lo, hi in bins]
    vw = trap(lambda l: planck(5778, l) * math.exp(-((l - 551e-9) ** 2) / (2 * 38e-9 ** 2)), 350e-9, 850e-9, 500)
    full = trap(lambda l: planck(5778, l), min(b[0] for b in bins), max(b[1] for b in bins), 500)
    tot = 8.75e9 * full / vw
    return [s * tot / sum(sun) * H * C / ((b[0] + b[1]) / 2) for s, b in zip(sun, bins)]


def verdict(ctx, rule, nm, wh, bad, und, msg):
    ctx.count("formulas")
    if bad is not None:
        ctx.ob(False, rule, wh, msg, nm)
    elif und:
        ctx.count("undetermined")
        ctx.notes.append("%s: %s is undetermined" % (rule, nm))
    else:
        ctx.ob(True, rule, wh, "", nm)
