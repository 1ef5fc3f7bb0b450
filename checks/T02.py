"""T02: time scales, SPICE wrappers and Keplerian orbits convert by definition.

Witness functions call the public interface with symbolic arguments; the CSPICE functions at the bottom are
uninterpreted functions of their (named) arguments. Every number that comes back is compared with the definition.
"""
from sa import absint, fx, rot
from sa import terms as tm
from sa.alg import E, V, F

FT = ("f",)
CT = ("i", 8, True)
HEAD = '''
#include "huira/huira.hpp"
using namespace huira;
namespace verif_w {
using W3 = Vec3<double>; using M = Mat3<double>;
#define SC(nm, S) \\
double jd_##nm(double x) { return Time::from_julian_date(x, TimeScale::S).et(); } \\
double mjd_##nm(double x) { return Time::from_modified_julian_date(x, TimeScale::S).et(); } \\
double tojd_##nm(const Time& t) { return t.to_julian_date(TimeScale::S); } \\
double tomjd_##nm(const Time& t) { return t.to_modified_julian_date(TimeScale::S); } \\
double yr_##nm(const Time& t) { return t.julian_years_since_j2000(TimeScale::S); }
SC(UTC, UTC) SC(TAI, TAI) SC(TT, TT) SC(TDB, TDB)
double fet(double x) { return Time::from_et(x).et(); }
double fet2(double x) { return Time::from_ephemeris_time(x).ephemeris_time(); }
double deftojd(const Time& t) { return t.to_julian_date(); }
double deftomjd(const Time& t) { return t.to_modified_julian_date(); }
double defyr(const Time& t) { return t.julian_years_since_j2000(); }
double str(const std::string& s) { return Time(s).et(); }
std::string iso(const Time& t) { return t.to_iso_8601(); }
std::string utcs(const Time& t) { return t.to_utc_string(); }
bool eq(const Time& a, const Time& b) { return a == b; }
bool ne(const Time& a, const Time& b) { return a != b; }
bool lt(const Time& a, const Time& b) { return a < b; }
bool le(const Time& a, const Time& b) { return a <= b; }
bool gt(const Time& a, const Time& b) { return a > b; }
bool ge(const Time& a, const Time& b) { return a >= b; }
double plus(const Time& a, double s) { return (a + units::Second(s)).et(); }
double plusd(const Time& a, double s) { return (a + units::Day(s)).et(); }
double minus(const Time& a, const Time& b) { return (a - b).to_si(); }
double ic_s(const Time& a, double d) { return Interval::from_centered(a, units::Second(d)).start.et(); }
double ic_e(const Time& a, double d) { return Interval::from_centered(a, units::Second(d)).end.et(); }
double is_s(const Time& a, double d) { return Interval::from_start(a, units::Second(d)).start.et(); }
double is_e(const Time& a, double d) { return Interval::from_start(a, units::Second(d)).end.et(); }
double ib_s(const Time& a, const Time& b) { return Interval::from_bounds(a, b).start.et(); }
double ib_e(const Time& a, const Time& b) { return Interval::from_bounds(a, b).end.et(); }
double i_c(const Interval& i) { return i.center().et(); }
double i_d(const Interval& i) { return i.duration().to_si(); }
double i_1(const Interval& i) { return i.samples(1)[0].et(); }
double i_n1(const Interval& i) { return static_cast<double>(i.samples(1).size()); }
double i_50(const Interval& i) { return i.samples(5)[0].et(); }
double i_51(const Interval& i) { return i.samples(5)[1].et(); }
double i_53(const Interval& i) { return i.samples(5)[3].et(); }
double i_54(const Interval& i) { return i.samples(5)[4].et(); }
double i_n5(const Interval& i) { return static_cast<double>(i.samples(5).size()); }
double i_0(const Interval& i) { return i.samples(0)[0].et(); }
double k_tdb(const std::string& a, const std::string& b, double x) { return spice::unitim(x, a, b); }
double k_del(const std::string& a, double x) { return spice::deltet(x, a); }
double k_str(const std::string& a) { return spice::str2et(a); }
#define ST(T, t) \\
Vec3<T> spk_p_##t(const std::string& a, const Time& e, const std::string& b, const std::string& c, const std::string& d) { return std::get<0>(spice::spkezr<T>(a, e, b, c, d)); } \\
Vec3<T> spk_v_##t(const std::string& a, const Time& e, const std::string& b, const std::string& c, const std::string& d) { return std::get<1>(spice::spkezr<T>(a, e, b, c, d)); } \\
double spk_l_##t(const std::string& a, const Time& e, const std::string& b, const std::string& c, const std::string& d) { return std::get<2>(spice::spkezr<T>(a, e, b, c, d)); } \\
Mat3<T> px_##t(const std::string& a, const std::string& b, const Time& e) { return spice::pxform<T>(a, b, e).parent_to_local_matrix(); } \\
Mat3<T> sx_r_##t(const std::string& a, const std::string& b, const Time& e) { return spice::sxform<T>(a, b, e).first.parent_to_local_matrix(); } \\
Vec3<T> sx_w_##t(const std::string& a, const std::string& b, const Time& e) { return spice::sxform<T>(a, b, e).second; } \\
Vec3<T> con_p_##t(const std::array<double, 8>& x, const Time& e) { return spice::conics<T>(x, e).first; } \\
Vec3<T> con_v_##t(const std::array<double, 8>& x, const Time& e) { return spice::conics<T>(x, e).second; }
ST(double, d) ST(float, f)
#define KEP KeplerianOrbitCallback k(units::Meter(a), ec, units::Radian(i), units::Radian(ra), units::Radian(ap), units::Radian(m), ep, mu); k.evaluate(t, r, w)
#define KA double a, double ec, double i, double ra, double ap, double m, const Time& ep, double mu, const Time& t, const Rotation<double>& r, const W3& w
W3 kep_p(KA) { KEP; return k.position; }
W3 kep_v(KA) { KEP; return k.velocity; }
}
'''


def strval(I, st, a):
    """The text a char pointer denotes, or the object it points into."""
    b = a.a[0] if a.op == "el" and a.a[1] is tm.c(0) else a
    s = ""
    for i in range(200):
        x = st.store.get(tm.el(b, tm.c(i)))
        if x is None or x.op != "c":
            break
        if x.a[0] == 0:
            break
        s += chr(int(x.a[0]))
    return ("'" + s + "'") if s else tm.show(b)


def sname(a):
    return "'" + a + "'"


def base_of(a):
    return a.a[0] if a.op == "el" and a.a[1] is tm.c(0) else a


def concrete(t, env):
    """The value of a comparison over two unknowns placed in one of their three orders."""
    if t in env:
        return env[t]
    if t.op == "c":
        return t.a[0]
    xs = [concrete(x, env) if isinstance(x, tm.T) else x for x in t.a]
    if any(x is None for x in xs):
        return None
    o = t.op
    if o == "not":
        return not xs[0]
    if o == "and":
        return xs[0] and xs[1]
    if o == "or":
        return xs[0] or xs[1]
    if o == "ite":
        return xs[1] if xs[0] else xs[2]
    if o in ("lt", "le", "eq"):
        a, b = xs[-2:]
        return a < b if o == "lt" else a <= b if o == "le" else a == b
    if o == "cast":
        return xs[-1]
    if o in ("sub", "add"):
        return xs[-2] - xs[-1] if o == "sub" else xs[-2] + xs[-1]
    return None


class Kernel:
    def __init__(self):
        self.seen = {}

    def scalar(self, nm, order, out=None):
        """nm(args): order of ('s' text | 'n' number) parameters; the result is returned or stored in *args[out]."""
        def m(I, n, f, this, args, argn, on, st, fr):
            txt = ",".join(strval(I, st, args[i]) for i, k in order if k == "s")
            xs = [E(args[i]) for i, k in order if k == "n"]
            r = tm.settype(F("%s<%s>" % (nm, txt), *xs).t, FT)
            self.seen.setdefault(nm, []).append((txt, n, st))
            if out is None:
                return r
            I.store(st, args[out], r)
            return tm.c(0)
        return (m, True)

    def vector(self, nm, order, outs):
        """outs: [(arg, shape, label)]"""
        def m(I, n, f, this, args, argn, on, st, fr):
            txt = ",".join(strval(I, st, args[i]) for i, k in order if k == "s")
            xs = [E(args[i]) for i, k in order if k == "n"]
            for i, k in order:
                if isinstance(k, int):
                    b = base_of(args[i])
                    xs += [E(I.load(st, tm.el(b, tm.c(j)), FT)) for j in range(k)]
            for a, shape, lab in outs:
                b = base_of(args[a])
                I.kill_sub(st, b)
                st.store.pop(b, None)
                if shape == ():
                    I.store(st, args[a], tm.settype(F("%s.%s<%s>" % (nm, lab, txt), *xs).t, FT))
                elif len(shape) == 1:
                    for i in range(shape[0]):
                        st.store[tm.el(b, tm.c(i))] = tm.settype(F("%s.%s%d<%s>" % (nm, lab, i, txt), *xs).t, FT)
                else:
                    for i in range(shape[0]):
                        for j in range(shape[1]):
                            st.store[tm.el(tm.el(b, tm.c(i)), tm.c(j))] = tm.settype(F("%s.%s%d%d<%s>" % (nm, lab, i, j, txt), *xs).t, FT)
            return tm.c(0)
        return (m, True)

    def xf2rav(self):
        def m(I, n, f, this, args, argn, on, st, fr):
            b = base_of(args[0])
            probe = I.load(st, tm.el(tm.el(b, tm.c(0)), tm.c(0)), FT)
            if probe.op != "call" or not str(probe.a[0]).startswith("sxform.x00"):
                return NotImplemented
            tag = str(probe.a[0])[len("sxform.x00"):]
            xs = [E(x) for x in probe.a[1:] if isinstance(x, tm.T)]
            for i in range(3):
                for j in range(3):
                    st.store[tm.el(tm.el(base_of(args[1]), tm.c(i)), tm.c(j))] = tm.settype(F("rot%d%d%s" % (i, j, tag), *xs).t, FT)
                st.store[tm.el(base_of(args[2]), tm.c(i))] = tm.settype(F("av%d%s" % (i, tag), *xs).t, FT)
            return tm.c(0)
        return (m, True)


def run(ctx):
    ctx.explanation = "time conversions, CSPICE wrappers and Keplerian elements against their definitions over symbolic arguments"
    ctx.trusted = ["clang's type-checked AST", "sa value graphs and normal forms", "the documented meaning of the CSPICE functions"]
    W = fx.Wit(ctx, "t02.cpp", HEAD)
    W.scoped()
    P = W.P
    K = Kernel()
    # a rotation built from a matrix is that matrix (decided by M01)
    MODELS = dict(rot.discover(P, raw=True))
    MODELS.update({
        "unitim_c": K.scalar("unitim", [(0, "n"), (1, "s"), (2, "s")]),
        "deltet_c": K.scalar("deltet", [(0, "n"), (1, "s")], out=2),
        "str2et_c": K.scalar("str2et", [(0, "s")], out=1),
        "timout_c": K.scalar("timout", [(0, "n"), (1, "s")], out=None),
        "spkezr_c": K.vector("spkezr", [(0, "s"), (2, "s"), (3, "s"), (4, "s"), (1, "n")], [(5, (6,), "s"), (6, (), "lt")]),
        "pxform_c": K.vector("pxform", [(0, "s"), (1, "s"), (2, "n")], [(3, (3, 3), "m")]),
        "sxform_c": K.vector("sxform", [(0, "s"), (1, "s"), (2, "n")], [(3, (6, 6), "x")]),
        "xf2rav_c": K.xf2rav(),
        "conics_c": K.vector("conics", [(1, "n"), (0, 8)], [(2, (6,), "s")]),
    })
    tfd = [fd["d"] for r in P.rec_by_key.get("huira::Time", ()) for fd in r.get("fields", ())]
    ctx.require(len(tfd) == 1, "huira::Time holds one number")

    def load(o, a):
        return E(o.I.load(absint.State(), a, FT))

    def T(o, i):
        return load(o, tm.fld(o.paraddr(i), tfd[0]))

    def txt(o, *ix):
        return "<%s>" % ",".join(tm.show(o.paraddr(i)) for i in ix)

    def go(nm, want, rule="time", void=False):
        o = W.run(nm, models=MODELS)
        wh = fx.where_of(P, o.fn, last=True)[0]
        if not o.ok:
            o.never(rule, wh, "%s: no value is ever returned" % nm, nm)
            return o
        w = want(o)
        if isinstance(w, E):
            fx.check(ctx, rule, nm, o.val, w, wh, site=nm, tol=1e-12)
        elif isinstance(w, tuple):
            ctx.obligations += 0
            for c, (gc, wc) in enumerate(zip(o.mat(), w)):
                for r in range(3):
                    fx.check(ctx, rule, "%s[%d][%d]" % (nm, c, r), gc[r], wc[r], wh, site="%s[%d][%d]" % (nm, c, r), tol=1e-12)
        else:
            for i, g in enumerate(o.vec()):
                fx.check(ctx, rule, "%s[%d]" % (nm, i), g, w[i], wh, site="%s[%d]" % (nm, i), tol=1e-12)
        ctx.sample(nm)
        return o

    # ---- time scales: seconds past J2000 in a scale <-> TDB
    DAY = 86400
    frm = {"TDB": lambda x: x, "TT": lambda x: F("unitim<'TT','TDB'>", x), "TAI": lambda x: F("unitim<'TAI','TDB'>", x),
           "UTC": lambda x: x + F("deltet<'UTC'>", x)}
    to = {"TDB": lambda t: t, "TT": lambda t: F("unitim<'TDB','TT'>", t), "TAI": lambda t: F("unitim<'TDB','TAI'>", t),
          "UTC": lambda t: t - F("deltet<'ET'>", t)}
    J = E(2451545)
    M0 = E(2400000) + E(1) / 2
    Y = E(36525) / 100 * DAY
    for s in ("UTC", "TAI", "TT", "TDB"):
        go("jd_" + s, lambda o: frm[s]((o.arg(0) - J) * DAY))
        go("mjd_" + s, lambda o: frm[s]((o.arg(0) + M0 - J) * DAY))
        go("tojd_" + s, lambda o: J + to[s](T(o, 0)) / DAY)
        go("tomjd_" + s, lambda o: J + to[s](T(o, 0)) / DAY - M0)
        go("yr_" + s, lambda o: to[s](T(o, 0)) / Y)
    go("fet", lambda o: o.arg(0))
    go("fet2", lambda o: o.arg(0))
    go("deftojd", lambda o: J + T(o, 0) / DAY)
    go("deftomjd", lambda o: J + T(o, 0) / DAY - M0)
    go("defyr", lambda o: to["TT"](T(o, 0)) / Y)
    go("str", lambda o: F("str2et" + txt(o, 0)))
    for nm in ("iso", "utcs"):
        K.seen.clear()
        o = W.run(nm, models=MODELS)
        wh = fx.where_of(P, o.fn, last=True)[0]
        pics = [x[0] for x in K.seen.get("timout", ())]
        ctx.require(pics, "%s reaches timout_c" % nm)
        for p in pics:
            if not p.startswith("'"):
                ctx.notes.append("%s: picture not a literal" % nm)
                continue
            want = "'YYYY-MM-DDTHR:MN:SC" if nm == "iso" else "'YYYY-MM-DD HR:MN:SC"
            if nm == "iso":
                ctx.ob("::UTC" in p, "picture", wh, "to_iso_8601 asks for the picture %s, which is not UTC though the result is marked Z" % p, "iso-utc")
            ctx.ob(p.startswith(want), "picture", wh, "%s asks for the picture %s" % (nm, p), nm + "-picture")
    # ---- comparisons and arithmetic
    cmp = {"eq": lambda a, b: tm.eq(FT, a.t, b.t), "ne": lambda a, b: tm.not_(tm.eq(FT, a.t, b.t)), "lt": lambda a, b: tm.lt(FT, a.t, b.t),
           "gt": lambda a, b: tm.lt(FT, b.t, a.t), "le": lambda a, b: tm.not_(tm.lt(FT, b.t, a.t)), "ge": lambda a, b: tm.not_(tm.lt(FT, a.t, b.t))}
    for k, f in cmp.items():
        o = W.run(k, models=MODELS)
        wh = fx.where_of(P, o.fn, last=True)[0]
        if not o.ok:
            o.never("compare", wh, "operator %s never returns" % k, k)
            continue
        # finite times: not (b < a) and a <= b are one condition
        for x, y, r in ((0, 1, {"lt", "ne", "le"}), (1, 0, {"gt", "ne", "ge"}), (1, 1, {"eq", "le", "ge"})):
            v = concrete(o.val.t, {T(o, 0).t: x, T(o, 1).t: y})
            if v is None:
                ctx.notes.append("compare: operator %s is undetermined" % k)
                continue
            ctx.ob(bool(v) == (k in r), "compare", wh, "operator %s answers %s for %s and %s" % ((k, bool(v)) + (("an earlier time", "a later one") if x < y else ("a later time", "an earlier one") if x > y else ("a time", "itself"))), "%s(%d,%d)" % (k, x, y))
    go("plus", lambda o: T(o, 0) + o.arg(1))
    go("plusd", lambda o: T(o, 0) + o.arg(1) * DAY)
    go("minus", lambda o: T(o, 0) - T(o, 1))
    go("ic_s", lambda o: T(o, 0) - o.arg(1) / 2, "interval")
    go("ic_e", lambda o: T(o, 0) + o.arg(1) / 2, "interval")
    go("is_s", lambda o: T(o, 0), "interval")
    go("is_e", lambda o: T(o, 0) + o.arg(1), "interval")
    go("ib_s", lambda o: T(o, 0), "interval")
    go("ib_e", lambda o: T(o, 1), "interval")
    ifd = {fd["n"]: fd["d"] for r in P.rec_by_key.get("huira::Interval", ()) for fd in r.get("fields", ())}
    ctx.require("start" in ifd and "end" in ifd, "Interval::start/end")
    S = lambda o: load(o, tm.fld(tm.fld(o.paraddr(0), ifd["start"]), tfd[0]))
    N = lambda o: load(o, tm.fld(tm.fld(o.paraddr(0), ifd["end"]), tfd[0]))
    go("i_c", lambda o: (S(o) + N(o)) / 2, "interval")
    go("i_d", lambda o: N(o) - S(o), "interval")
    go("i_1", lambda o: (S(o) + N(o)) / 2, "interval")
    for k in (0, 1, 3, 4):
        go("i_5%d" % k, lambda o: S(o) + (N(o) - S(o)) * k / 4, "interval")
    go("i_n1", lambda o: E(1), "interval")
    go("i_n5", lambda o: E(5), "interval")
    o = W.run("i_0", models=MODELS)
    ctx.ob(o.stopped or not o.ok, "interval", fx.where_of(P, o.fn, last=True)[0], "Interval::samples(0) returns instead of reporting an error", "i_0")
    # ---- SPICE wrappers
    go("k_tdb", lambda o: F("unitim" + txt(o, 0, 1), o.arg(2)), "spice")
    go("k_del", lambda o: F("deltet" + txt(o, 0), o.arg(1)), "spice")
    go("k_str", lambda o: F("str2et" + txt(o, 0)), "spice")
    for t in "df":
        tg = lambda o: txt(o, 0, 2, 3, 4)
        go("spk_p_" + t, lambda o: V([F("spkezr.s%d%s" % (i, tg(o)), T(o, 1)) * 1000 for i in range(3)]), "spice")
        go("spk_v_" + t, lambda o: V([F("spkezr.s%d%s" % (i + 3, tg(o)), T(o, 1)) * 1000 for i in range(3)]), "spice")
        go("spk_l_" + t, lambda o: F("spkezr.lt" + tg(o), T(o, 1)), "spice")
        go("px_" + t, lambda o: tuple(V([F("pxform.m%d%d%s" % (r, c, txt(o, 0, 1)), T(o, 2)) for r in range(3)]) for c in range(3)), "spice")
        go("sx_r_" + t, lambda o: tuple(V([F("rot%d%d%s" % (r, c, txt(o, 0, 1)), T(o, 2)) for r in range(3)]) for c in range(3)), "spice")
        go("sx_w_" + t, lambda o: V([F("av%d%s" % (i, txt(o, 0, 1)), T(o, 2)) for i in range(3)]), "spice")

        def elems(o):
            return [load(o, tm.el(o.paraddr(0), tm.c(i))) for i in range(8)]
        go("con_p_" + t, lambda o: V([F("conics.s%d<>" % i, T(o, 1), *elems(o)) * 1000 for i in range(3)]), "spice")
        go("con_v_" + t, lambda o: V([F("conics.s%d<>" % (i + 3), T(o, 1), *elems(o)) * 1000 for i in range(3)]), "spice")
    # ---- Keplerian elements: periapsis distance in km, e, i, node, argument of periapsis, mean anomaly, epoch, mu
    def el8(o):
        a, ec = o.arg(0), o.arg(1)
        return [a * (1 - ec) / 1000, ec, o.arg(2), o.arg(3), o.arg(4), o.arg(5), T(o, 6), o.arg(7)]
    go("kep_p", lambda o: V([F("conics.s%d<>" % i, T(o, 8), *el8(o)) * 1000 for i in range(3)]), "kepler")
    go("kep_v", lambda o: V([F("conics.s%d<>" % (i + 3), T(o, 8), *el8(o)) * 1000 for i in range(3)]), "kepler")
