"""M11: star catalogs are read by their columns and stored without loss.

Witnesses run the Tycho-2 readers over one symbolic line, and write a catalog of symbolic stars and read it back. Text and
file operations are interpreted in a small theory of strings (terms) and of a file (objects at offsets), so the value graph of
a field is a term over the text of the line; it is compared, for sample lines, with what the column tables say.
"""
import math
import random
from sa import absint
from sa import concrete as cc
from sa import fx
from sa import models as md
from sa import terms as tm
from sa.terms import mk, c

NPOS = 2 ** 64 - 1
NAN = float("nan")
LINE = mk("glob", "verif_line")
COUNT = mk("glob", "verif_lines")
POS = mk("glob", "verif_pos")
BAD = mk("glob", "verif_bad")
FILE = mk("glob", "verif_file")
STR = ("std::basic_string", "std::basic_string_view")
U64, FT, I64, BT = md.U64, md.FT, md.I64, md.BT


# ---- strings ------------------------------------------------------------------------------------
def _substr(s, a, n=NPOS):
    return s[a:a + n] if n < len(s) else s[a:]


def _find(pred):
    def h(s, cs, at=0):
        return next((i for i in range(int(at), len(s)) if pred(s[i], cs)), NPOS)
    return h


def _rfind(pred):
    def h(s, cs):
        return next((i for i in range(len(s) - 1, -1, -1) if pred(s[i], cs)), NPOS)
    return h


def _text(x):
    return chr(x) if isinstance(x, int) else x


def number(s):
    """What strtod takes from the front of the text, or None."""
    import re
    m = re.match(r"[ \t\n\r\f\v]*([+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf(inity)?|nan))", s, re.I)
    return float(m.group(1)) if m else None


IN = lambda ch, cs: ch in _text(cs)
OUT = lambda ch, cs: ch not in _text(cs)
FUNS = {
    "verif_substr": _substr,
    "verif_len": len,
    "verif_at": lambda s, i: ord(s[i]) if 0 <= i < len(s) else 0,
    "verif_first_of": _find(IN), "verif_first_not": _find(OUT), "verif_last_of": _rfind(IN), "verif_last_not": _rfind(OUT),
    "verif_find": lambda s, x, at=0: (lambda k: NPOS if k < 0 else k)(s.find(_text(x), int(at))),
    "verif_numeric": lambda s: number(s) is not None,
    "verif_num": lambda s: NAN if number(s) is None else number(s),
    "verif_int": lambda s: int(number(s)) if number(s) is not None else 0,
    "isdigit": lambda x: 48 <= x <= 57,
    "isspace": lambda x: x in (9, 10, 11, 12, 13, 32),
    "verif_vband": lambda m: 3.6e-8 * 10 ** (-0.4 * m),
}


def sval(I, st, a):
    """The text of the string (or characters) an address denotes."""
    if a.op == "str" or a.op == "c":
        return a
    v = I.load(st, a)
    return mk("str", v.a[0]) if v.op == "strval" else v


def pyv(t):
    return t.a[0] if t.op in ("c", "str") else None


def scall(name, *args):
    vs = [pyv(x) for x in args]
    if all(v is not None for v in vs):
        r = FUNS[name](*vs)
        return mk("str", r) if isinstance(r, str) else c(r)
    return tm.call(name, *args)


def put(I, st, a, v):
    I.kill_sub(st, a)
    st.store[a] = v


def is_str(I, nd):
    return I.P.ty(I.P.deref_type(nd.t)).get("key") in STR


def s_size(I, n, f, this, args, argn, on, st, fr):
    return tm.settype(scall("verif_len", sval(I, st, this)), U64)


def s_empty(I, n, f, this, args, argn, on, st, fr):
    return tm.eq(U64, tm.settype(scall("verif_len", sval(I, st, this)), U64), md.ZERO)


def s_at(I, n, f, this, args, argn, on, st, fr):
    s = sval(I, st, this)
    i = args[0] if args else md.ZERO if f.n == "front" else tm.sub(U64, tm.settype(scall("verif_len", s), U64), c(1))
    if f.n == "at":
        md.throw_unless(I, tm.lt(U64, i, tm.settype(scall("verif_len", s), U64)), n, st, fr)
    a = I.tmp(n, fr, "ch")
    st.store[a] = tm.settype(scall("verif_at", s, i), ("i", 8))
    return a


def s_substr(I, n, f, this, args, argn, on, st, fr):
    s = sval(I, st, this)
    a = args[0] if args else md.ZERO
    md.throw_unless(I, tm.le(U64, a, tm.settype(scall("verif_len", s), U64)), n, st, fr)
    if st.dead:
        return I.rec_result(n, st, fr, I.fresh(n, fr))
    return I.rec_result(n, st, fr, scall("verif_substr", s, a, args[1] if len(args) > 1 else c(NPOS)))


FIND = {"find_first_of": "verif_first_of", "find_first_not_of": "verif_first_not", "find_last_of": "verif_last_of", "find_last_not_of": "verif_last_not", "find": "verif_find"}


def s_find(I, n, f, this, args, argn, on, st, fr):
    k = args[1:2]
    if len(args) > 2 or f.n.startswith("find_last") and k and pyv(k[0]) != NPOS:
        return NotImplemented
    x = args[0]
    if x.op not in ("str", "c") and not is_str(I, argn[0]):
        if not I.is_val(argn[0].t):
            return NotImplemented
        x = md.arg_val(I, st, x, f, 0)
    return tm.settype(scall(FIND[f.n], sval(I, st, this), sval(I, st, x), *([] if f.n.startswith("find_last") or not k else k)), U64)


def s_assign(I, n, f, this, args, argn, on, st, fr):
    if len(args) == 1 and (args[0].op == "str" or is_str(I, argn[0])):
        put(I, st, this, sval(I, st, args[0]))
        return this
    return NotImplemented


def s_clear(I, n, f, this, args, argn, on, st, fr):
    put(I, st, this, mk("str", ""))


def s_view(I, n, f, this, args, argn, on, st, fr):
    return I.rec_result(n, st, fr, sval(I, st, this))


def s_ctor(I, n, a, f, args, st, fr):
    xs = [x for x in n.c if x is not None]
    if not args or I.P.tstr(f.params[0]["t"]).find("llocator") >= 0 and len(args) == 1:
        put(I, st, a, mk("str", ""))
    elif args[0].op == "str" or is_str(I, xs[0]):
        s = sval(I, st, args[0])
        rest = [x for x, p in zip(args[1:], f.params[1:]) if I.P.ty(p["t"])["k"] in ("int", "uint") or I.is_val(p["t"])]
        put(I, st, a, scall("verif_substr", s, *rest) if rest else s)
    else:
        put(I, st, a, I.fresh(n, fr, "str"))


def m_stod(I, n, f, this, args, argn, on, st, fr):
    s = sval(I, st, args[0])
    md.throw_unless(I, scall("verif_numeric", s), n, st, fr)
    return tm.settype(scall("verif_int" if "i" in f.n[2:] or f.n in ("stol", "stoul", "stoll", "stoull") else "verif_num", s), I.tc(f.ret))


# ---- files --------------------------------------------------------------------------------------
def yes(*_):
    return tm.TRUE


def no(*_):
    return tm.FALSE


def nothing(*_):
    return None


def lines(first):
    """getline delivers the given lines, then one unknown line, then nothing."""
    def getline(I, n, f, this, args, argn, on, st, fr):
        if not is_str(I, argn[1]) or len(args) != 2:
            return NotImplemented
        k = st.store.get(COUNT, c(0)).a[0]
        st.store[COUNT] = c(k + 1)
        put(I, st, args[1], mk("str", first[k]) if k < len(first) else LINE if k == len(first) else mk("str", ""))
        return args[0]

    def good(I, n, f, this, args, argn, on, st, fr):
        return tm.TRUE if st.store.get(COUNT, c(0)).a[0] <= len(first) + 1 else tm.FALSE

    def fail(I, n, f, this, args, argn, on, st, fr):
        return tm.not_(good(I, n, f, this, args, argn, on, st, fr))
    m = {"std::getline": (getline, False), "std::basic_ios::(conv)": (good, False), "std::basic_ios::operator bool": (good, False), "std::basic_ios::operator!": (fail, False), "std::basic_ios::fail": (fail, False),
         "std::basic_ios::good": (good, False), "std::basic_ios::eof": (fail, False), "std::basic_ios::bad": (no, False)}
    for k in ("ifstream", "ofstream"):
        m["std::basic_%s::is_open" % k] = (yes, False)
        m["std::basic_%s::close" % k] = (nothing, False)
    m["std::count"] = (lambda I, n, f, this, args, argn, on, st, fr: c(3), False)
    return m


def string_models():
    m = {"std::stod": (m_stod, False), "std::stof": (m_stod, False), "std::stoi": (m_stod, False), "std::stol": (m_stod, False), "std::stoul": (m_stod, False)}
    for k in STR:
        for x in ("size", "length"):
            m[k + "::" + x] = (s_size, False)
        m[k + "::empty"] = (s_empty, False)
        for x in ("operator[]", "at", "front", "back"):
            m[k + "::" + x] = (s_at, False)
        m[k + "::substr"] = (s_substr, False)
        for x in FIND:
            m[k + "::" + x] = (s_find, False)
        for x in ("operator=", "assign"):
            m[k + "::" + x] = (s_assign, False)
        m[k + "::clear"] = (s_clear, False)
    m["std::basic_string::(conv)"] = (s_view, False)
    return m


def physics():
    """The photometric integral is not part of this question (see solid)."""
    def vec(I, n, f, this, args, argn, on, st, fr):
        a = I.rec_result(n, st, fr, I.fresh(n, fr, "physics"))
        st.store[tm.el(a, "$size")] = c(1000)
        return a
    return {"huira::johnson_vband_approximation": (vec, True), "huira::plancks_law": (vec, True), "huira::photon_energy": (lambda *a: c(1.0), True),
            "huira::integrate": (lambda *a: c(1.0), True), "huira::v_band_irradiance": (lambda I, n, f, this, args, argn, on, st, fr: tm.settype(tm.call("verif_vband", args[0]), FT), True)}


def pointee(I, nd):
    """The type of the objects a pointer cast to characters points to."""
    x = nd
    while x is not None and x.k.endswith("CastExpr") or x is not None and x.k == "ParenExpr":
        x = x.c[0] if x.c else None
        if x is None:
            return None
        t = I.P.ty(I.P.deref_type(x.t))
        if t["k"] == "ptr" and I.P.ty(t["p"])["k"] == "rec":
            return t["p"]
    return None


def width(I, ti):
    t = I.P.ty(I.P.deref_type(ti))
    r = I.P.records.get(t.get("rec", -1))
    return r.get("size") if r is not None else None


def file_models(sizes):
    def opened(I, n, a, f, args, st, fr):
        put(I, st, a, I.fresh(n, fr, "stream"))
        st.store[POS] = c(0)
        st.store[BAD] = md.ZERO
        if f.clskey.endswith("ofstream"):
            I.kill_sub(st, FILE)

    def seek(I, n, f, this, args, argn, on, st, fr):
        v = args[0]
        if v.op != "c" and not I.is_val(argn[0].t):
            v = I.load(st, args[0])
        while v.op == "cast":
            v = v.a[1]
        v = I.subst(st, v)
        d = I.subst(st, args[1]) if len(args) == 2 else md.ZERO
        p = st.store.get(POS, md.ZERO)
        if v.op != "c" or d.op != "c" or d.a[0] not in (0, 1) or d.a[0] == 1 and p.op != "c":
            st.store[POS] = I.fresh(n, fr, "pos")
        else:
            st.store[POS] = c(v.a[0] + (p.a[0] if d.a[0] else 0))
        return this

    def fpos(I, n, a, f, args, st, fr):
        v = args[0] if args else md.ZERO
        put(I, st, a, v)

    def span(I, args, argn, st):
        ti = pointee(I, argn[0])
        p, k = st.store.get(POS), I.subst(st, args[1])
        while k.op == "cast":
            k = k.a[1]
        if ti is None or p is None or p.op != "c" or k.op != "c":
            return None
        w = sizes.get(I.P.tstr(ti).split("::")[-1])
        return (ti, p.a[0], w, k.a[0]) if w else None

    def addr(I, a, i):
        if i == 0:
            return a
        return tm.padd(a, c(i))

    def write(I, n, f, this, args, argn, on, st, fr):
        s = span(I, args, argn, st)
        if s is None:
            st.store[FILE] = I.fresh(n, fr, "file")
            st.store[POS] = I.fresh(n, fr, "pos")
            return this
        ti, p, w, k = s
        for i in range(k // w):
            I.copy_obj(st, tm.el(FILE, c(p + i * w)), addr(I, args[0], i), ti)
            st.store[tm.el(tm.el(FILE, c(p + i * w)), "$here")] = c(w)
        st.store[POS] = c(p + k)
        return this

    def read(I, n, f, this, args, argn, on, st, fr):
        s = span(I, args, argn, st)
        if s is None:
            I.clobber(st, args[0], n, fr)
            st.store[POS] = I.fresh(n, fr, "pos")
            return this
        ti, p, w, k = s
        for i in range(k // w):
            a = tm.el(FILE, c(p + i * w))
            if st.store.get(tm.el(a, "$here")) is not c(w):
                st.store[BAD] = c(1)
                break
            I.copy_obj(st, addr(I, args[0], i), a, ti)
        st.store[POS] = c(p + k)
        return this

    def good(I, n, f, this, args, argn, on, st, fr):
        return tm.eq(I64, st.store.get(BAD, md.ZERO), md.ZERO)

    def fail(I, n, f, this, args, argn, on, st, fr):
        return tm.not_(good(I, n, f, this, args, argn, on, st, fr))

    def less(I, a, b, et, cmp, n, st, fr):
        if cmp is not None:
            done, v = md.closure(I, st, cmp, [(a, et), (b, et)], n, fr)
            return I.decide(st, v) if done and v is not None else None
        key = I.P.ty(et).get("key", "") + "::operator<"
        for g in I.P.defs:
            if g.key == key and g.has_body:
                v = I.invoke(g, a, [b], n, st, fr)
                return I.decide(st, v) if v is not None else None
        return None

    def sort(I, n, f, this, args, argn, on, st, fr):
        sp = md.span_of(I, st, args, argn)
        if sp is None or I.quiet:
            return NotImplemented
        xs, et, used = sp
        cmp = args[used] if len(args) > used else None
        if cmp is not None and cmp not in I.lams:
            return NotImplemented
        order = []
        for i, x in enumerate(xs):
            j = len(order)
            while j > 0:
                k = less(I, x, order[j - 1], et, cmp, n, st, fr)
                if k is None:
                    return NotImplemented
                if not k:
                    break
                j -= 1
            order.insert(j, x)
        tmp = []
        for i, x in enumerate(order):
            t = I.tmp(n, fr, "sort%d" % i)
            I.copy_obj(st, t, x, et)
            tmp.append(t)
        for x, t in zip(xs, tmp):
            I.copy_obj(st, x, t, et)
        return None

    def remove_if(I, n, f, this, args, argn, on, st, fr):
        sp = md.span_of(I, st, args, argn)
        if sp is None or I.quiet or sp[2] != 2 or args[2] not in I.lams:
            return NotImplemented
        j = 0
        for a in sp[0]:
            done, b = md.closure(I, st, args[2], [(a, sp[1])], n, fr)
            k = I.decide(st, b) if done and b is not None else None
            if k is None:
                return NotImplemented
            if not k:
                if sp[0][j] is not a:
                    I.copy_obj(st, sp[0][j], a, sp[1])
                j += 1
        return md.scalar_result(I, n, f, st, fr, sp[0][j] if j < len(sp[0]) else md.ptr_value(I, st, args[1], argn[1]))

    def inserter(I, n, f, this, args, argn, on, st, fr):
        return I.rec_result(n, st, fr, mk("inserter", args[0]))

    def copy_if(I, n, f, this, args, argn, on, st, fr):
        sp = md.span_of(I, st, args, argn)
        if sp is None or I.quiet or len(args) != sp[2] + 2 or args[sp[2] + 1] not in I.lams:
            return NotImplemented
        to = st.store.get(args[sp[2]])
        if to is None or to.op != "inserter":
            return NotImplemented
        v = to.a[0]
        for a in sp[0]:
            done, b = md.closure(I, st, args[sp[2] + 1], [(a, sp[1])], n, fr)
            k = I.decide(st, b) if done and b is not None else None
            if k is None:
                return NotImplemented
            if k:
                s = I.subst(st, md.size_of(I, st, v))
                I.copy_obj(st, tm.el(v, s), a, sp[1])
                md.set_size(I, st, v, tm.add(U64, s, c(1)))
        return I.rec_result(n, st, fr, to)
    m = {"huira::Logger::get_level": (lambda *a: c(99), True), "std::basic_ios::(conv)": (good, False), "std::basic_ios::operator bool": (good, False), "std::basic_ios::operator!": (fail, False), "std::basic_ios::fail": (fail, False), "std::basic_ios::good": (good, False),
         "std::basic_ios::bad": (fail, False), "std::basic_istream::seekg": (seek, False), "std::basic_ostream::seekp": (seek, False), "std::basic_istream::read": (read, False), "std::basic_ostream::write": (write, False),
         "std::basic_ostream::flush": (nothing, False), "std::sort": (sort, False), "std::stable_sort": (sort, False), "std::ranges::__sort_fn::operator()": (sort, False), "std::remove_if": (remove_if, False), "std::back_inserter": (inserter, False), "std::copy_if": (copy_if, False),
         "std::ranges::__copy_if_fn::operator()": (copy_if, False)}
    for k in ("ifstream", "ofstream"):
        m["std::basic_%s::is_open" % k] = (yes, False)
        m["std::basic_%s::close" % k] = (nothing, False)
    return m, {"std::basic_ifstream": opened, "std::basic_ofstream": opened, "std::fpos": fpos}


# ---- the column tables (Tycho-2, ReadMe of the catalogue: first byte - 1, last byte) -------------
MAIN = dict(tyc1=(0, 4), tyc2=(5, 10), tyc3=(11, 12), flag=(13, 14), ra=(15, 27), de=(28, 40), pmra=(41, 48), pmde=(49, 56), bt=(110, 116), vt=(123, 129),
            ora=(152, 164), ode=(165, 177), epra=(178, 182), epde=(183, 187))
SUPPL = dict(tyc1=(0, 4), tyc2=(5, 10), tyc3=(11, 12), flag=(13, 14), ra=(15, 27), de=(28, 40), pmra=(41, 48), pmde=(49, 56), bt=(83, 89), vt=(96, 102))
MAINW = [4, 5, 1, 1, 12, 12, 7, 7, 3, 3, 4, 4, 7, 7, 2, 3, 3, 3, 3, 6, 5, 6, 5, 3, 1, 9, 12, 12, 4, 4, 5, 5, 1, 4]
SUPPLW = [4, 5, 1, 1, 12, 12, 7, 7, 5, 5, 5, 5, 1, 6, 5, 6, 5, 3, 1, 6]
D = math.pi / 180
MAS = D / 3600 / 1000


def make(rng, main, drop=(), text=None, flag=" ", width=None):
    """A line of the catalogue: random digits in every field, real values in the fields that count."""
    cols = MAIN if main else SUPPL
    n = max(sum(MAINW) + len(MAINW) - 1 if main else sum(SUPPLW) + len(SUPPLW) - 1, 0)
    s = [None] * n
    at = 0
    for w in (MAINW if main else SUPPLW):
        for i in range(w):
            s[at + i] = str(rng.randint(1, 9))
        if at + w < n:
            s[at + w] = "|"
        at += w + 1
    vals = dict(tyc1="%04d" % rng.randint(1, 9537), tyc2="%05d" % rng.randint(1, 12121), tyc3=str(rng.randint(1, 3)), flag=flag, ra="%12.8f" % rng.uniform(0, 360), de="%12.8f" % rng.uniform(-88, 88),
                pmra="%7.1f" % rng.uniform(-4000, 4000), pmde="%7.1f" % rng.uniform(-4000, 4000), bt="%6.3f" % rng.uniform(2, 14), vt="%6.3f" % rng.uniform(2, 12),
                ora="%12.8f" % rng.uniform(0, 360), ode="%12.8f" % rng.uniform(-88, 88), epra="%4.2f" % rng.uniform(0.5, 2.5), epde="%4.2f" % rng.uniform(0.5, 2.5))
    vals.update(text or {})
    for k, (a, b) in cols.items():
        v = " " * (b - a) if k in drop else vals[k]
        s[a:b] = list(v.rjust(b - a)[:b - a])
    out = "".join(s)
    return out if width is None else out[:width]


def field(line, at):
    a, b = at
    t = line[a:b].strip(" \t") if a < len(line) else ""
    return NAN if number(t) is None else number(t)


def wanted(line, main):
    """The star a line stands for, or None."""
    cols = MAIN if main else SUPPL
    if not line or not line[0].isdigit():
        return None
    g = lambda k: field(line, cols[k])
    w = dict(tyc1=g("tyc1"), tyc2=g("tyc2"), tyc3=g("tyc3"))
    era = ede = 2000.0 if main else 1991.25
    if main and (len(line) < 14 or line[13] == "X"):
        ra, de, era, ede = g("ora"), g("ode"), 1990 + g("epra"), 1990 + g("epde")
    else:
        ra, de = g("ra"), g("de")
    bt, vt = g("bt"), g("vt")
    if any(x != x for x in (ra, de, era, ede)) or bt != bt and vt != vt:
        return None
    p, q = g("pmra"), g("pmde")
    w["pmra"], w["pmde"] = (0.0 if p != p else p), (0.0 if q != q else q)
    w["de"] = de * D + w["pmde"] * MAS * (2000 - ede)
    w["ra"] = ra * D + w["pmra"] * MAS * (2000 - era) / math.cos(w["de"])
    if bt == bt and vt == vt:
        w["vmag"], bv = vt - 0.09 * (bt - vt), 0.85 * (bt - vt)
    else:
        w["vmag"], bv = (vt if vt == vt else bt), 0.3
    w["temp"] = 4600 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62))
    w["solid"] = FUNS["verif_vband"](w["vmag"])
    return w


OUTS = ["tyc1", "tyc2", "tyc3", "ra", "de", "pmra", "pmde", "vmag", "temp", "solid"]


def text(n):
    t = ['#include "huira/huira.hpp"', '#include "huira/stars/io/load_tycho2.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, 16>;",
         "inline void star(A& o, const StarData& s) { std::uint16_t a, b; std::uint8_t d; unpack_tycho2_id(s.id, a, b, d); o[1] = a; o[2] = b; o[3] = d; o[4] = s.RA; o[5] = s.DEC; o[6] = s.pmRA; o[7] = s.pmDEC; "
         "o[8] = s.visual_magnitude; o[9] = s.temperature; o[10] = s.solid_angle; }"]
    for k in ("dat", "suppl"):
        for x in ("", "_after"):
            t.append("A %s%s(const fs::path& p) { A o{}; std::vector<StarData> v = read_tycho2_%s(p); o[0] = static_cast<double>(v.size()); star(o, v[0]); return o; }" % (k, x, k))
    t.append("A ids(std::uint16_t a, std::uint16_t b, std::uint8_t d) { A o{}; std::uint16_t x, y; std::uint8_t z; unpack_tycho2_id(pack_tycho2_id(a, b, d), x, y, z); o[0] = x; o[1] = y; o[2] = z; return o; }")
    t.append("A solid(double bt, double vt) { A o{}; StarData s; s.process_magnitude(bt, vt); o[0] = s.solid_angle; o[1] = s.visual_magnitude; o[2] = s.temperature; return o; }")
    t.append("A moved(double ra, double de, float pr, float pd, double er, double ed) { A o{}; StarData s; s.RA = ra; s.DEC = de; s.pmRA = pr; s.pmDEC = pd; s.normalize_epoch(er, ed); o[0] = s.RA; o[1] = s.DEC; o[2] = s.pmRA; o[3] = s.pmDEC; return o; }")
    ps = ", ".join("float m%d, double r%d" % (i, i) for i in range(n))
    add = "StarCatalog k; k.set_catalog_type(CatalogType::Tycho2); " + " ".join(
        "{ StarData s; s.id = %d; s.RA = r%d; s.DEC = 2 * r%d; s.pmRA = 3.f; s.pmDEC = 4.f; s.solid_angle = 3 * r%d; s.temperature = 5.f; s.visual_magnitude = m%d; k.add_star(s); }" % (i + 1, i, i, i, i) for i in range(n))
    t.append("using B = std::array<double, %d>;" % (8 * n + 2))
    get = "B o{}; o[0] = static_cast<double>(c.size()); o[1] = static_cast<double>(c.catalog_type_); for (std::size_t i = 0; i < c.size(); ++i) { const StarData& s = c[i]; std::size_t j = 2 + 8 * i; " + " ".join(
        "o[j + %d] = static_cast<double>(s.%s);" % (i, x) for i, x in enumerate(("id", "RA", "DEC", "pmRA", "pmDEC", "solid_angle", "temperature", "visual_magnitude"))) + " } return o;"
    t.append("B store(const fs::path& p, float mx, %s) { %s k.write_star_data(p); StarCatalog c = StarCatalog::read_star_data(p, mx); %s }" % (ps, add, get))
    t.append("B store_all(const fs::path& p, %s) { %s k.write_star_data(p); StarCatalog c = StarCatalog::read_star_data(p); %s }" % (ps, add, get))
    t.append("B clip(float mx, %s) { %s k.clip_by_magnitude(mx); StarCatalog c = k; %s }" % (ps, add, get))
    t.append("std::size_t size_header() { return sizeof(HrscHeader); } std::size_t size_star() { return sizeof(StarData); }")
    t.append("}")
    return "\n".join(t) + "\n"


def run(ctx):
    n = 4 if ctx.thorough else 3
    W = fx.Wit(ctx, "m11.cpp", text(n), flags=["-fno-access-control"])
    cc.FUN.update(FUNS)
    P = W.P
    leaf = lambda t: t.a[0] if t.op == "str" else None

    def where(key):
        for f in P.defs:
            if f.key == "huira::" + key and f.has_body:
                return "%s:%s" % (f.file, f.line)
        ctx.require(False, "huira::" + key)

    def setup(I):
        I.calm = True
        I.first_statics = True
    old = {k: absint.CTORS.get(k) for k in STR}
    for k in STR:
        absint.CTORS[k] = s_ctor
    try:
        readers(ctx, W, where, leaf, setup)
    finally:
        for k, v in old.items():
            if v is None:
                absint.CTORS.pop(k, None)
            else:
                absint.CTORS[k] = v
    catalogs(ctx, W, where, leaf, n, setup)
    solid(ctx, W, where, leaf)
    o = W.run("ids")
    if o.ok:
        pts = [(a, b, d) for a in (0, 1, 9537, 16383) for b in (0, 1, 4096, 12121, 65535) for d in (0, 1, 3, 15)]
        for i, k in enumerate("abd"):
            fx.points(ctx, "identifiers", "TYC%d of an unpacked identifier" % (i + 1), o.vec(16)[i], [dict(zip([par(W, "ids", j) for j in range(3)], p)) for p in pts], lambda e, i=i: e[par(W, "ids", i)], where("unpack_tycho2_id"), leaf=leaf)
    ctx.cov["rule"] = "fields of the stars = column table; stored and reloaded catalog = the sorted catalog"


def vband(nm):
    """A stand-in for the V band (which is decided elsewhere)."""
    return math.exp(-((nm - 550e-9) / 40e-9) ** 2)


def trapezium(*a):
    x, y = a[:len(a) // 2], a[len(a) // 2:]
    return sum((x[i + 1] - x[i]) * (y[i] + y[i + 1]) / 2 for i in range(len(x) - 1))


PHOTO = {
    "verif_wave": lambda i, n: 450e-9 + 250e-9 * i / (n - 1),
    "verif_eff": lambda i, n: vband(450e-9 + 250e-9 * i / (n - 1)),
    "verif_planck": lambda t, l: 1.19e-16 / l ** 5 / (math.exp(0.0143877 / (l * t)) - 1),
    "verif_photon": lambda l: 1.98645e-25 / l,
    "verif_trapezium": trapezium,
}


def solid(ctx, W, where, leaf):
    """A star's solid angle makes its photon rate in the V band that of its magnitude."""
    cc.FUN.update(PHOTO)
    wh = where("StarData::process_magnitude")

    def els(I, st, a, k):
        return [I.load(st, tm.el(a, c(i)), FT) for i in range(k)]

    def fill(I, n, st, fr, a, vals):
        if a is None:
            a = I.rec_result(n, st, fr, I.fresh(n, fr, "values"))
        else:
            put(I, st, a, I.fresh(n, fr, "values"))
        for i, v in enumerate(vals):
            st.store[tm.el(a, c(i))] = tm.settype(v, FT)
        st.store[tm.el(a, "$size")] = c(len(vals))
        return a

    def length(I, st, v):
        v = I.subst(st, v)
        while v.op == "cast":
            v = v.a[1]
        return v.a[0] if v.op == "c" and 1 < v.a[0] <= 4000 else None

    def johnson(I, n, f, this, args, argn, on, st, fr):
        k = length(I, st, args[0])
        if k is None or len(args) != 2:
            return NotImplemented
        fill(I, n, st, fr, args[1], [tm.call("verif_wave", c(i), c(k)) for i in range(k)])
        return fill(I, n, st, fr, None, [tm.call("verif_eff", c(i), c(k)) for i in range(k)])

    def planck(I, n, f, this, args, argn, on, st, fr):
        k = length(I, st, md.size_of(I, st, args[1]))
        t = args[0] if I.is_val(argn[0].t) and args[0].op not in ("var", "tmp", "fld") else I.load(st, args[0], FT)
        if k is None:
            return NotImplemented
        return fill(I, n, st, fr, None, [tm.call("verif_planck", t, x) for x in els(I, st, args[1], k)])

    def photon(I, n, f, this, args, argn, on, st, fr):
        return tm.settype(tm.call("verif_photon", md.arg_val(I, st, args[0], f, 0)), FT)

    def integral(I, n, f, this, args, argn, on, st, fr):
        k, k2 = length(I, st, md.size_of(I, st, args[0])), length(I, st, md.size_of(I, st, args[1]))
        if k is None or k != k2:
            return NotImplemented
        return tm.settype(mk("call", "verif_trapezium", *(els(I, st, args[0], k) + els(I, st, args[1], k))), FT)
    models = dict(physics())
    models.update({"huira::johnson_vband_approximation": (johnson, True), "huira::plancks_law": (planck, True), "huira::photon_energy": (photon, True), "huira::integrate": (integral, True)})
    b, v = par(W, "solid", 0), par(W, "solid", 1)
    ways = []

    def want(bt, vt):
        if bt == bt and vt == vt:
            m, bv = vt - 0.09 * (bt - vt), 0.85 * (bt - vt)
        else:
            m, bv = (vt if vt == vt else bt), 0.3
        t = 4600 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62))
        n = 2001
        xs = [PHOTO["verif_wave"](i, n) for i in range(n)]
        return FUNS["verif_vband"](m) / trapezium(*(xs + [vband(x) * PHOTO["verif_planck"](t, x) / PHOTO["verif_photon"](x) for x in xs])), m, t
    for bt, vt in ((6.5, 6.0), (2.0, 2.2), (12.5, 10.1), (NAN, 7.5), (8.25, NAN)):
        env = {b: bt, v: vt}
        o, sure = W.toward("solid", env, leaf, known=ways, models=models, unroll=4100, budget=4000000)
        if not sure or o.stopped or not o.ok:
            ctx.count("undetermined")
            ctx.notes.append("process_magnitude: the way of BT %s, VT %s is not known" % (bt, vt))
            continue
        x = o.vec(16)
        w = want(bt, vt)
        for i, (k, r) in enumerate((("solid angle", 2e-3), ("visual magnitude", 1e-6), ("temperature", 1e-6))):
            fx.points(ctx, "photometry", "StarData::process_magnitude: " + k, x[i], [env], lambda e: w[i], wh, leaf=leaf, rel=r, atol=0 if i == 0 else 1e-12, say=lambda e: "BT %s, VT %s" % (bt, vt))
    wh = where("StarData::normalize_epoch")
    ways = []
    ps = [par(W, "moved", i) for i in range(6)]
    for ra, de, pr, pd in ((1.0, 0.5, 2e6, -3e6), (5.0, -1.2, -1e6, 4e6), (0.1, 1.4, 5e5, 5e5)):
        for er, ed in ((2000.0, 2000.0), (1991.25, 1991.25), (1990.5, 1992.25), (2000.0, 1991.0), (1991.0, 2000.0), (2010.0, 2005.0)):
            env = dict(zip(ps, (ra, de, pr, pd, er, ed)))
            o, sure = W.toward("moved", env, leaf, known=ways)
            if not sure or o.stopped or not o.ok:
                ctx.count("undetermined")
                ctx.notes.append("normalize_epoch: not followed")
                continue
            x = o.vec(16)
            d = de + pd * MAS * (2000 - ed)
            for i, (k, w) in enumerate((("RA", ra + pr * MAS * (2000 - er) / math.cos(d)), ("DEC", d), ("pmRA", pr), ("pmDEC", pd))):
                fx.points(ctx, "epochs", "StarData::normalize_epoch: " + k, x[i], [env], lambda e: w, wh, leaf=leaf, rel=1e-6, atol=1e-9)


def par(W, name, i):
    return mk("par", W.fns[name].params[i]["d"])


def readers(ctx, W, where, leaf, setup):
    rng = random.Random(20)
    for main in (True, False):
        k = "dat" if main else "suppl"
        wh = where("read_tycho2_" + k)
        good = [make(rng, main) for _ in range(12)]
        ls = list(good)
        for d in (("pmra",), ("pmde",), ("pmra", "pmde"), ("bt",), ("vt",), ("bt", "vt"), ("ra",), ("de",)):
            ls += [make(rng, main, d) for _ in range(2)]
        ls += [make(rng, main, text={"bt": "  ?.??"}), make(rng, main, text={"vt": "------"}), make(rng, main, width=60), "", "#" + good[0], " " + good[1], "tyc", good[2] + "\r", good[3].replace("|", " ")]
        cols = MAIN if main else SUPPL
        ls += [good[4][:cols["vt"][1]], good[4][:cols["vt"][0]], good[5][:cols["bt"][1]], good[5][:cols["vt"][1] - 2], good[5][:cols["vt"][1] + 3]]
        if main:
            for d in ((), (), (), ("ra", "de", "pmra", "pmde"), ("ra", "de", "pmra", "pmde"), ("ora",), ("ode",), ("epra",), ("epde",), ("epra", "epde"), ("vt",)):
                ls.append(make(rng, main, d, flag="X"))
            ls += [make(rng, main, (), flag="P"), make(rng, main, ("ora", "ode", "epra", "epde"), flag="P"), good[6][:13], make(rng, main, (), flag="X")[:150], make(rng, main, (), flag="X")[:182]]
        else:
            ls += [make(rng, main, flag="H"), make(rng, main, flag="T")]
        full = make(rng, main, text={"pmra": " 3999.0", "pmde": "-2999.0"})
        bad = full[:cols["bt"][0]] + " " * (cols["bt"][1] - cols["bt"][0]) + full[cols["bt"][1]:cols["vt"][0]] + " " * (cols["vt"][1] - cols["vt"][0]) + full[cols["vt"][1]:]
        for name, first in ((k, []), (k + "_after", [bad, "", "# a comment"])):
            models = dict(string_models(), **physics())
            models.update(lines(first))
            ways = []
            tail = " after skipped lines" if first else ""
            for x in (ls if not first else good[:6] + ls[12:18]):
                env = {LINE: x}
                o, sure = W.toward(name, env, leaf, known=ways, models=models, unroll=6, setup=setup)
                if not sure or o.stopped:
                    ctx.count("undetermined")
                    ctx.notes.append("read_tycho2_%s%s: the way of the line %r is not known" % (k, tail, x[:40]))
                    continue
                if not o.ok:
                    o.never("columns", wh, "read_tycho2_%s%s does not return for the line %r" % (k, tail, x), "read_tycho2_%s|return" % k)
                    continue
                v = o.vec(16)
                say = lambda e: "the line " + repr(e[LINE])
                w = wanted(x, main)
                fx.points(ctx, "columns", "read_tycho2_%s%s: number of stars" % (k, tail), v[0], [env], lambda e: float(w is not None), wh, leaf=leaf, say=say)
                for i, q in enumerate(OUTS if w else ()):
                    fx.points(ctx, "columns", "read_tycho2_%s%s: %s" % (k, tail, q), v[i + 1], [env], lambda e: w[q], wh, leaf=leaf, say=say, rel=1e-7 if q not in ("pmra", "pmde", "vmag", "temp", "solid") else 1e-5, atol=2e-9 if q != "solid" else 0)
            ctx.count("ways", len(ways))


def catalogs(ctx, W, where, leaf, n, setup):
    sizes = {}
    for k, t in (("size_header", "HrscHeader"), ("size_star", "StarData")):
        v = W.run(k).val.t
        ctx.require(v.op == "c", "the size of " + t)
        sizes[t] = int(v.a[0])
    rng = random.Random(5)
    P = W.P
    models, ctors = file_models(sizes)
    old = {k: absint.CTORS.get(k) for k in ctors}
    absint.CTORS.update(ctors)
    try:
        for name in ("store", "store_all", "clip"):
            fn = W.fns[name]
            ways = []
            wh = where({"clip": "StarCatalog::clip_by_magnitude"}.get(name, "StarCatalog::read_star_data"))
            ps = fn.params
            keys = {p["n"]: p["d"] for p in ps}
            mags = [[rng.choice([1.5, 2.5, 2.5, 4.0, 6.25, NAN, -1.0, 35.0, 0.0]) for _ in range(n)] for _ in range(60)] + [[NAN] * n, [2.5] * n, [1.0] * (n - 1) + [NAN], list(range(n)), list(range(n))[::-1]]
            cuts = set()
            while mags:
                m = mags.pop(0)
                for mx in ((2.5, -9.0, 5.0, 99.0, 1e6) if name != "store_all" else (float("inf"),)):
                    env = {}
                    for i in range(n):
                        env[mk("par", keys["m%d" % i])] = float(m[i])
                        env[mk("par", keys["r%d" % i])] = 10.0 + i
                    if "mx" in keys:
                        env[mk("par", keys["mx"])] = mx
                    keep = [i for i in range(n) if m[i] == m[i] and m[i] <= mx]
                    if name != "clip":
                        keep.sort(key=lambda i: m[i])
                    say = lambda e: "magnitudes %s, limit %s" % (m, mx)
                    o, sure = W.toward(name, env, leaf, known=ways, models=models, unroll=12, setup=setup)
                    if not sure or o.stopped:
                        ctx.count("undetermined")
                        ctx.notes.append("%s: the way of %s is not known" % (name, say(env)))
                        continue
                    if not o.ok:
                        o.never("storage", wh, "a catalog with %s is not read back (%s)" % (say(None), name), "StarCatalog|%s|return" % name)
                        return
                    v = o.vec(8 * n + 2)
                    want = [float(len(keep)), 1.0]
                    for i in keep:
                        r = 10.0 + i
                        want += [i + 1.0, r, 2 * r, 3.0, 4.0, 3 * r, 5.0, m[i]]
                    names = ["number of stars", "type of catalog"] + ["%s of star %d" % (x, j) for j in range(n) for x in ("id", "RA", "DEC", "pmRA", "pmDEC", "solid angle", "temperature", "magnitude")]
                    if name != "clip":  # (the order of equal stars is free)
                        got = [cc.concrete(fx.E(v[2 + 8 * j]).t, env, leaf) for j in range(len(keep))]
                        if None not in got and sorted(got) == sorted(i + 1.0 for i in keep) and [m[int(g) - 1] for g in got] == [m[i] for i in keep]:
                            want = want[:2]
                            for g in got:
                                i = int(g) - 1
                                r = 10.0 + i
                                want += [i + 1.0, r, 2 * r, 3.0, 4.0, 3 * r, 5.0, m[i]]
                    for j, x in enumerate(want):
                        fx.points(ctx, "storage", "%s: %s" % (name, names[j]), v[j], [env], lambda e, x=x: x, wh, leaf=leaf, say=say, site="StarCatalog|%s" % name)
                if not mags:  # both sides of every number a magnitude is compared with
                    new = {c for c in fx.thresholds(ways) if abs(c) <= 1e6} - cuts
                    if len(cuts) < 40:
                        mags += [[c - d] * (n - 1) + [c + d] for c in sorted(new) for d in (0.0, 1.0)]
                    cuts |= new
            ctx.count("ways", len(ways))
    finally:
        for k, v in old.items():
            if v is None:
                absint.CTORS.pop(k, None)
            else:
                absint.CTORS[k] = v
