"""U01: units keep their SI meaning through construction, literals, conversion, arithmetic and comparison.

A witness program that uses every named unit in every way is generated and type-checked; the value each
witness function returns (a term computed by the value-graph dataflow over the library's templates as
clang instantiated them) must have the polynomial normal form the unit's definition prescribes.
"""
import re
from sa import absint, terms as tm
from checks.unitdefs import UNITS, LITERALS, SPECTRAL, scales, off, SI_NAME

COMPILE_IS_VIOLATION = True


def witness():
    L = ['#include "huira/units/units.hpp"', '#include "huira/units/spectral_quantity.hpp"', '#include "huira/core/spectral_bins.hpp"',
         '#include "all_headers.inc"', "namespace verif_units {", "using namespace huira; using namespace huira::units; using namespace huira::units::literals;"]
    W = []  # (function name, kind, data)

    def w(name, kind, sig, expr, *data):
        L.append("inline %s { return %s; }" % (sig % name, expr))
        W.append((name, kind, data))

    D1, D2 = "double %s(double a)", "double %s(double a, double b)"
    for u in UNITS:
        n = u[0]
        w("si_" + n, "si", D1, "%s(a).to_si()" % n, u)
        w("sif_" + n, "si", "float %s(double a)", "%s(a).to_si_f()" % n, u)
        w("raw_" + n, "id", D1, "%s(a).raw_value()" % n, u)
        w("val_" + n, "id", D1, "%s(a).value()" % n, u)
        w("int_" + n, "si", "double %s(int a)", "%s(a).to_si()" % n, u)
        L.append("inline double neg_%s(double a) { return (-%s(a)).raw_value(); }" % (n, n))
        W.append(("neg_" + n, "scaled", (u, "neg")))
        for o, e in (("mul", "{q} * b"), ("div", "{q} / b"), ("lmul", "b * {q}")):
            w("%s_%s" % (o, n), "scaled", D2, "(%s).raw_value()" % e.format(q=n + "(a)"), u, o)
        for o, e in (("mul", "q *= b"), ("div", "q /= b"), ("addeq", "q += %s(b)" % n), ("subeq", "q -= %s(b)" % n)):
            L.append("inline double c%s_%s(double a, double b) { %s q(a); %s; return q.raw_value(); }" % (o, n, n, e))
            W.append(("c%s_%s" % (o, n), "scaled", (u, o)))
        L.append("inline double rec_%s(double a, double b) { return (b / %s(a)).to_si(); }" % (n, n))
        W.append(("rec_" + n, "rec", (u,)))
        L.append("inline double def_%s() { return %s().raw_value(); }" % (n, n))
        W.append(("def_" + n, "zero", (u,)))
        L.append("inline double asg_%s(double a, double b) { %s p(a), q(b); p = q; return p.raw_value(); }" % (n, n))
        W.append(("asg_" + n, "second", (u,)))
    by = {}
    for u in UNITS:
        by.setdefault(u[1], []).append(u)
    for dim, us in by.items():
        for u in us:
            for v in us:
                p = "%s_%s" % (u[0], v[0])
                w("cv_" + p, "conv", D1, "%s(%s(a)).raw_value()" % (v[0], u[0]), u, v)
                w("as_" + p, "conv", D1, "%s(a).as<%s>().raw_value()" % (u[0], v[0]), u, v)
                L.append("inline double av_%s(double a, double b) { %s x(b); x = %s(a); return x.raw_value(); }" % (p, v[0], u[0]))
                W.append(("av_" + p, "conv", (u, v)))
                w("ap_" + p, "sum", D2, "(%s(a) + %s(b)).raw_value()" % (u[0], v[0]), u, v, 1)
                w("am_" + p, "sum", D2, "(%s(a) - %s(b)).raw_value()" % (u[0], v[0]), u, v, -1)
                for nm, o in (("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
                    w("%s_%s" % (nm, p), "cmp", "bool %s(double a, double b)", "%s(a) %s %s(b)" % (u[0], o, v[0]), u, v, o)
    reps = [u for u in UNITS if u[0] in ("Meter", "Kilometer", "Second", "Degree", "Celsius", "SquareDegree", "Hour", "ElectronVolt")]
    for u in UNITS:
        for v in reps:
            if u[0] == "AstronomicalUnit" and v[0] == "Kilometer":
                continue  # the product's ratio still fits, the quotient's does too; kept below for Meter
            p = "%s_%s" % (u[0], v[0])
            w("qm_" + p, "prod", D2, "(%s(a) * %s(b)).to_si()" % (u[0], v[0]), u, v, 1)
            w("qd_" + p, "prod", D2, "(%s(a) / %s(b)).to_si()" % (u[0], v[0]), u, v, -1)
    by_n = {u[0]: u for u in UNITS}
    for s, n in LITERALS.items():
        for t in ("unsigned long long", "long double"):
            w("lit%s_%s" % (s, t[0]), "si", "double %s(" + t + " a)", 'operator""%s(a).to_si()' % s, by_n[n])
    for k, u in enumerate(SPECTRAL):
        T = u[0] + "<RGB>"
        for i in range(3):
            L.append("inline float sp_%s_%d(RGB a) { return static_cast<float>(%s(a).to_si()[%d]); }" % (u[0], i, T, i))
            W.append(("sp_%s_%d" % (u[0], i), "spec", (u, None, i)))
            for v in SPECTRAL:
                if v[1] == u[1]:
                    L.append("inline float sc_%s_%s_%d(RGB a) { return %s<RGB>(%s(a)).value()[%d]; }" % (u[0], v[0], i, v[0], T, i))
                    W.append(("sc_%s_%s_%d" % (u[0], v[0], i), "spec", (u, v, i)))
    # the printed SI unit symbol (constant expressions: the compiler decides these)
    for d, s in SI_NAME.items():
        L.append('static_assert(units::%s::to_si_string() == "%s", "SI symbol of %s");' % (d, s, d))
    L.append("}")
    return "\n".join(L) + "\n", W


def affine(p, s, o):
    """(p + o) * s as a polynomial."""
    return tm.pmul(tm.padd_(p, tm.pconst(o)), {(): s})


def cmp_norm(t):
    """A comparison as (op, normalised difference); NaN operands are excluded by construction."""
    neg = False
    while t.op == "not":
        neg = not neg
        t = t.a[0]
    if t.op not in ("lt", "le", "eq"):
        return None
    d = tm.padd_(tm.poly(t.a[1]), tm.poly(t.a[2]), -1)
    op = t.op
    if neg and op in ("lt", "le"):
        d = tm.padd_({}, d, -1)
        op = {"lt": "le", "le": "lt"}[op]
        neg = False
    return op, neg, d


def scale_free(p, sign):
    if not p:
        return p
    lead = min(p, key=lambda m: tuple((a.u, e) for a, e in m))
    k = p[lead] if sign else abs(p[lead])
    return {m: v / k for m, v in p.items()}


def run(ctx):
    text, W = witness()
    P = ctx.program("u01_witness.cpp", text=text)
    ctx.explanation = ("every witness function over the named units returns a value whose polynomial normal form equals the one "
                       "prescribed by the unit's definition; every construction excludes NaN on its normal exit")
    ctx.trusted = ["clang's type-checked AST", "sa/absint.py value numbering and sa/terms.py polynomial arithmetic",
                   "real arithmetic in place of IEEE rounding (coefficients compared to 1e-9 relative)"]
    for name, kind, data in W:
        fs = [f for f in P.defs if f.key == "verif_units::" + name and f.has_body]
        ctx.require(fs, "witness " + name)
        f = fs[0]
        I = absint.Interp(P, inline=lambda g: not g.key.startswith("huira::Logger") and g.n not in ("to_si_string", "get_si_unit_string"))
        r = I.run(f)
        if r.val is None or r.st is None:
            ctx.ob(False, "unit-value", f.where, "%s has no value" % name, name)
            continue
        A = [tm.mk("par", p["d"]) for p in f.params]
        pa = [{((x, 1),): 1} for x in A]
        got = r.val
        ok = True
        want = None
        if kind == "cmp":
            u, v, o = data
            g = cmp_norm(got)
            best = None
            for su in scales(u):
                for sv in scales(v):
                    a, b = affine(pa[0], su, off(u)), affine(pa[1], sv, off(v))
                    if o in (">", ">="):
                        a, b = b, a
                    d = tm.padd_(a, b, -1)
                    op, neg = {"<": "lt", ">": "lt", "<=": "le", ">=": "le"}.get(o, "eq"), o == "!="
                    if g and g[0] == op and g[1] == neg and tm.peq(scale_free(g[2], op == "eq"), scale_free(d, op == "eq"), 1e-9):
                        best = True
            ok = bool(best)
            want = "%s %s %s in SI" % (u[0], o, v[0])
        else:
            got = tm.poly(r.val)
            cands = []
            if kind == "si":
                cands = [affine(pa[0], s, off(data[0])) for s in scales(data[0])]
            elif kind == "id":
                cands = [pa[0]]
            elif kind == "zero":
                cands = [{}]
            elif kind == "second":
                cands = [pa[1]]
            elif kind == "scaled":
                o = data[1]
                if o == "neg":
                    cands = [tm.padd_({}, pa[0], -1)]
                elif o in ("mul", "lmul"):
                    cands = [tm.pmul(pa[0], pa[1])]
                elif o == "div":
                    cands = [tm.pmul(pa[0], tm.ppow(pa[1], -1))]
                else:
                    cands = [tm.padd_(pa[0], pa[1], 1 if o == "addeq" else -1)]
            elif kind == "rec":
                u = data[0]
                cands = [tm.pmul(pa[1], tm.ppow(affine(pa[0], s, off(u)), -1)) for s in scales(u)]
            elif kind == "conv":
                u, v = data
                for su in scales(u):
                    for sv in scales(v):
                        cands.append(tm.padd_(tm.pmul(affine(pa[0], su, off(u)), {(): 1.0 / sv}), tm.pconst(-off(v))))
            elif kind == "sum":
                u, v, sg = data
                for su in scales(u):
                    for sv in scales(v):
                        conv = tm.padd_(tm.pmul(affine(pa[1], sv, off(v)), {(): 1.0 / su}), tm.pconst(-off(u)))
                        cands.append(tm.padd_(pa[0], conv, sg))
            elif kind == "prod":
                u, v, sg = data
                for su in scales(u):
                    for sv in scales(v):
                        a, b = affine(pa[0], su, off(u)), affine(pa[1], sv, off(v))
                        cands.append(tm.pmul(a, b if sg > 0 else tm.ppow(b, -1)))
            elif kind == "spec":
                u, v, i = data
                s = u[2] / (v[2] if v else 1)
                # the only atom left must be the i-th bin of the argument
                ms = list(got.items())
                ok = (len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1 and abs(ms[0][1] - s) <= 1e-6 * s
                      and bin_of(ms[0][0][0][0], A[0]) == i)
                cands = None
                want = "bin %d * %g" % (i, s)
            if cands is not None:
                ok = any(tm.peq(clean(got), clean(x), 1e-9) for x in cands)
                want = tm.pshow(cands[0])
        ctx.count("witness_values")
        if not ctx.ob(ok, "unit-value", f.where,
                      "`%s` evaluates to %s, by definition it is %s" % (name, tm.pshow(got) if isinstance(got, dict) else tm.show(got), want), name):
            continue
        if kind in ("si",) and f.params and P.tstr(f.params[0]["t"]) in ("double", "long double"):
            nan = any("isnan" in str(t.a[0]) and v is False for t, v in r.st.facts.items() if t.op == "call") or \
                any(t.op == "not" and t.a[0].op == "call" and "isnan" in str(t.a[0].a[0]) and v for t, v in r.st.facts.items()) or \
                any(t.op == "eq" and t.a[1] is t.a[2] and v for t, v in r.st.facts.items())
            ctx.ob(nan, "nan-rejected", f.where, "%s can be constructed from NaN" % data[0][0], name + ":nan")
        ctx.sample(name)


def clean(p):
    m = max([abs(v) for v in p.values()] or [0])
    return {k: v for k, v in p.items() if abs(v) > 1e-13 * m or len(p) == 1}


def bin_of(atom, base):
    """Index of the spectral bin a load reads."""
    t = atom
    while t.op in ("ld", "prj", "cast"):
        t = t.a[1] if t.op == "cast" else t.a[0]
        if t.op == "el" and t.a[1].op == "c" and tm.root(t) is base:
            return t.a[1].a[0]
    if t.op == "el" and t.a[1].op == "c" and tm.root(t) is base:
        return t.a[1].a[0]
    return None
