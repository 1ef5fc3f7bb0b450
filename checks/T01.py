"""T01: every failure CSPICE signals reaches the caller as an exception, and the error state, kernels and directory stay consistent.

The CSPICE error subsystem is given as a small model (below) in the witness unit; each routine fails or not by an unknown
of its own. What each wrapper does is the value graph over those unknowns, decided for every combination of them.
"""
import itertools
from sa import concrete as cc
from sa import fx
from sa import rot
from sa import terms as tm

N = 16
# routine -> needs a leap second kernel
ROUTINES = {"furnsh": 0, "str2et": 1, "deltet": 1, "unitim": 1, "timout": 1, "spkezr": 0, "pxform": 0, "sxform": 0, "xf2rav": 0, "conics": 0}
MODEL = '''
namespace K {
bool failed, returns, quiet, lsk, aborted, printed; int ran, skipped, kernels; bool fail[16];
bool enter(int i, bool needs) {
  if (failed && returns) { skipped |= 1 << i; return false; }
  ran |= 1 << i;
  if (fail[i] || (needs && !lsk)) { failed = true; if (!returns) aborted = true; if (!quiet) printed = true; return false; }
  return true;
}
}
extern "C" {
void erract_c(ConstSpiceChar* o, SpiceInt, SpiceChar* a) { if (o[0] == 'S') K::returns = a[0] == 'R'; else a[0] = K::returns ? 'R' : 'A'; }
void errprt_c(ConstSpiceChar* o, SpiceInt, SpiceChar* a) { if (o[0] == 'S') K::quiet = a[0] == 'N'; }
SpiceBoolean failed_c(void) { return K::failed; }
void reset_c(void) { K::failed = false; }
void getmsg_c(ConstSpiceChar*, SpiceInt, SpiceChar* m) { m[0] = 'x'; m[1] = 0; }
void furnsh_c(ConstSpiceChar*) { if (K::enter(0, false)) { K::lsk = true; K::kernels = K::kernels + 1; } }
void str2et_c(ConstSpiceChar*, SpiceDouble* et) { if (K::enter(1, true)) *et = 5.0; }
void deltet_c(SpiceDouble, ConstSpiceChar*, SpiceDouble* d) { if (K::enter(2, true)) *d = 5.0; }
SpiceDouble unitim_c(SpiceDouble e, ConstSpiceChar*, ConstSpiceChar*) { return K::enter(3, true) ? 5.0 : 0.0; }
void timout_c(SpiceDouble, ConstSpiceChar*, SpiceInt, SpiceChar* o) { if (K::enter(4, true)) { o[0] = 'a'; o[1] = 0; } }
void spkezr_c(ConstSpiceChar*, SpiceDouble, ConstSpiceChar*, ConstSpiceChar*, ConstSpiceChar*, SpiceDouble s[6], SpiceDouble* lt) { if (K::enter(5, false)) { for (int i = 0; i < 6; ++i) s[i] = 5.0; *lt = 5.0; } }
void pxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble, SpiceDouble r[3][3]) { if (K::enter(6, false)) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = i == j; } }
void sxform_c(ConstSpiceChar*, ConstSpiceChar*, SpiceDouble, SpiceDouble r[6][6]) { if (K::enter(7, false)) { for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) r[i][j] = i == j; } }
void xf2rav_c(ConstSpiceDouble x[6][6], SpiceDouble r[3][3], SpiceDouble v[3]) { if (K::enter(8, false)) { for (int i = 0; i < 3; ++i) { v[i] = 0; for (int j = 0; j < 3; ++j) r[i][j] = i == j; } } }
void conics_c(ConstSpiceDouble*, SpiceDouble, SpiceDouble s[6]) { if (K::enter(9, false)) for (int i = 0; i < 6; ++i) s[i] = 5.0; }
}
'''
CALLS = {
    "furnsh": ("spice::furnsh(\"k\");", ["furnsh"]),
    "str2et": ("o[9] = spice::str2et(\"t\");", ["str2et"]),
    "deltet": ("o[9] = spice::deltet(1.0, \"ET\");", ["deltet"]),
    "unitim": ("o[9] = spice::unitim(1.0, \"TDB\", \"TAI\");", ["unitim"]),
    "timout": ("spice::timout(1.0, \"p\", 40);", ["timout"]),
    "spkezr": ("o[9] = std::get<2>(spice::spkezr<double>(\"a\", T, \"b\", \"c\", \"d\"));", ["spkezr"]),
    "pxform": ("spice::pxform<double>(\"a\", \"b\", T);", ["pxform"]),
    "sxform": ("spice::sxform<double>(\"a\", \"b\", T);", ["sxform", "xf2rav"]),
    "conics": ("o[9] = spice::conics<double>(E, T).first.x;", ["conics"]),
    "default_pck": ("spice::load_default_pck();", ["furnsh"]),
    "relative": ("spice::furnsh_relative_to_file(\"d/k\");", ["furnsh"]),
    "relative_here": ("spice::furnsh_relative_to_file(\"k\");", ["furnsh"]),
}


def text():
    t = ['#include "huira/huira.hpp"', MODEL, "using namespace huira;", "namespace verif_w {", "using A = std::array<double, %d>;" % N]
    fs = list(ROUTINES)
    sig = "bool stale, bool returns, bool quiet, bool lsk, bool loaded, " + ", ".join("bool f_%s" % f for f in fs)
    pre = "A o{}; Time T = Time::from_et(3.0); std::array<double, 8> E{}; K::failed = stale; K::returns = returns; K::quiet = quiet; K::lsk = lsk; K::aborted = false; K::printed = false; K::ran = 0; K::skipped = 0; K::kernels = 0; " + " ".join("K::fail[%d] = f_%s;" % (i, f) for i, f in enumerate(fs)) + " spice::lsk_loaded.store(loaded); "
    post = " o[1] = K::failed; o[2] = K::aborted; o[3] = K::printed; o[4] = K::ran; o[5] = K::skipped; o[6] = K::returns; o[7] = K::kernels; o[8] = spice::lsk_loaded.load(); return o; }"
    for k, (c, _) in CALLS.items():
        t.append("A %s(%s) { %s o[0] = 1; try { %s o[0] = 0; } catch (...) {}%s" % (k, sig, pre, c, post))
    t.append("}")
    return "\n".join(t)


def generic(P, W, f, models):
    """Whether a function returns only with the error signal clear (None: not known)."""
    from sa import absint
    g = {}
    for v in P.vars:
        q = v.get("key") or v.get("q") or v.get("n") or ""
        if q.startswith("K::"):
            g[q[3:]] = v["d"]
    if "failed" not in g or "fail" not in g:
        return None
    failed, fail = tm.mk("glob", g["failed"]), tm.mk("glob", g["fail"])
    I = absint.Interp(P, inline=lambda h: not h.key.startswith("huira::Logger"), models=models, budget=400000)
    I.dtors = I.calm = True

    def pre(I, st, fr):
        st.store[failed] = tm.FALSE
    try:
        r = I.run(f, pre=pre)
    except absint.Budget:
        return None
    known = True
    for bad in range(len(ROUTINES)):
        for other in (False, True):
            def leaf(x):
                if x.op == "ld" and isinstance(x.a[0], tm.T) and tm.root(x.a[0]) is fail:
                    return x.a[0] is tm.el(fail, tm.c(bad))
                return other if tm.TY.get(x) == ("b",) and x.op not in ("ite", "and", "or", "not", "eq", "lt", "le", "cast") else None
            for st, _ in r.rets:
                if any(x is not None and bool(x) != p for x, p in ((cc.concrete(c, {}, leaf), p) for c, p in st.path)):
                    continue  # (does not return this way)
                v = cc.concrete(I.load(st, failed, ("b",)), {}, leaf)
                if v:
                    return False
                known = known and v is not None
    return True if known else None


CWD = tm.mk("glob", "verif.cwd")


def run(ctx):
    W = fx.Wit(ctx, "w_t01.cpp", text())
    P = W.P
    fs = list(ROUTINES)

    def once(I, n, f, this, args, argn, on, st, fr):
        lam = I.lams.get(args[1])
        if lam is None:
            return NotImplemented
        node, caps, home = lam
        fn = [P.fns[x] for x in node.get("lams") or [] if x in P.fns]
        I.invoke_env(fn[0], home.this, [], n, st, fr, caps, home)
        return None

    def cwd(I, n, f, this, args, argn, on, st, fr):
        if not args:
            r = I.tmp(n, fr, "cwd")
            I.kill_sub(st, r)
            st.store[r] = I.load(st, CWD)
            return r
        I.store(st, CWD, I.obj_value(st, args[0], f.params[0]["t"]))
        return None

    BT = ("b",)
    # (a rotation made from a matrix: decided by M01)
    models = dict(rot.discover(P, raw=True))
    models |= {"std::call_once": (once, False), "std::filesystem::current_path": (cwd, False),
              "std::atomic::load": (lambda I, n, f, this, args, argn, on, st, fr: I.load(st, this, BT), False),
              "std::atomic::operator bool": (lambda I, n, f, this, args, argn, on, st, fr: I.load(st, this, BT), False),
              "std::__atomic_base::operator=": (lambda I, n, f, this, args, argn, on, st, fr: I.store(st, this, args[0]) or args[0], False),
              "std::atomic::operator=": (lambda I, n, f, this, args, argn, on, st, fr: I.store(st, this, args[0]) or args[0], False),
              "std::atomic::store": (lambda I, n, f, this, args, argn, on, st, fr: I.store(st, this, args[0]), False)}
    seen = set()
    home = {}
    for f in P.fns.values():
        if f.key.startswith("huira::spice::") and f.has_body:
            home.setdefault(f.n, "%s:%s" % (f.file, f.line))

    for k, (_, rs) in CALLS.items():
        for first in (True, False):
            def setup(I):
                I.dtors = I.calm = True
                I.first_statics = first
            models["std::filesystem::path::has_parent_path"] = (lambda I, n, f, this, args, argn, on, st, fr: tm.TRUE if k == "relative" else tm.FALSE, False)
            o = W.run(k, models=models, setup=setup)
            seen |= o.I.visited
            wh = home.get(k, home.get({"default_pck": "load_default_pck", "relative": "furnsh_relative_to_file", "relative_here": "furnsh_relative_to_file"}.get(k), "include/huira_impl/core/spice.ipp"))
            what = "spice::%s%s" % (k, ", the first SPICE call" if first else "")
            if not o.ok:
                o.never("errors reach the caller", wh, "%s never returns" % what, what)
                continue
            names = {p["n"]: o.arg(i).t for i, p in enumerate(o.fn.params)}
            val = [o.load(tm.el(o.r.val, tm.c(i))).t for i in range(10)]
            lskd = any(ROUTINES[r] for r in rs)
            bad, und = {}, None
            for st in itertools.product((False, True), repeat=5):
                v = dict(zip(("stale", "returns", "quiet", "lsk", "loaded"), st))
                if v["loaded"] and not v["lsk"] or (not first and not (v["returns"] and v["quiet"])):
                    continue
                for fl in itertools.product((False, True), repeat=len(set(rs + ["str2et", "furnsh"]))):
                    e = dict(v, **{"f_" + r: False for r in fs})
                    e.update(("f_" + r, x) for r, x in zip(sorted(set(rs + ["str2et", "furnsh"])), fl))
                    # what has to happen
                    lsk, why = e["lsk"], None
                    kern = 0
                    if lskd and not e["loaded"] and e["stale"] and lsk and not e["f_str2et"]:
                        continue  # (whether an earlier error hides the loaded kernel from the probe is left open)
                    if lskd and not e["loaded"] and (e["f_str2et"] or not lsk or e["stale"]):
                        if e["f_furnsh"]:
                            why = "furnsh_c"
                        else:
                            lsk = True
                            kern += 1
                    probe = why is None
                    ran = []
                    for r in rs:
                        if why is None:
                            ran.append(r)
                            if e["f_" + r] or ROUTINES[r] and not lsk:
                                why = r + "_c"
                            elif r == "furnsh":
                                kern += 1
                    env = {names[n]: x for n, x in e.items() if n in names}
                    g = [cc.concrete(t, env) for t in val]
                    if any(x is None for x in g[:9]):
                        und = und or e
                        continue
                    at = ", ".join(n for n, x in e.items() if x) or "no failure"
                    mask = sum(1 << fs.index(r) for r in ran)

                    def no(rule, msg):
                        bad.setdefault(rule, "%s: %s (%s)" % (what, msg, at))
                    if why and not g[0]:
                        no("errors reach the caller", "the failure of %s is not reported" % why)
                    if not why and g[0]:
                        no("errors reach the caller", "throws though nothing failed")
                    if g[1]:
                        no("error state", "returns with the error signal still set")
                    if g[2]:
                        no("error state", "a failure aborts the process: the error action is not RETURN when a routine fails")
                    if int(g[4]) & mask != mask:
                        no("errors reach the caller", "a routine was skipped because of an earlier error")
                    if not why and lskd and not g[8]:
                        no("leap seconds", "the leap second kernel is not recorded as loaded")
                    if why == "furnsh_c" and lskd and g[8]:
                        no("leap seconds", "a leap second kernel that could not be loaded is recorded as loaded")
                    if not (e["stale"] and lskd and not e["loaded"]) and int(g[7]) != kern:
                        no("leap seconds", "%d kernels are loaded instead of %d" % (g[7], kern))
                    if why is None and rs[-1] in ("str2et", "deltet", "unitim", "spkezr", "conics"):
                        if g[9] is not None and g[9] not in (5.0, 5000.0):
                            no("errors reach the caller", "the result is not that of the routine")
            for rule in ("errors reach the caller", "error state", "leap seconds"):
                if rule in bad:
                    ctx.ob(False, rule, wh, bad[rule], what)
                elif und:
                    ctx.count("undetermined")
                    ctx.notes.append("%s: %s is not determined" % (what, rule))
                else:
                    ctx.ob(True, rule, wh, "", what)
                    ctx.count("wrappers")
            if k.startswith("relative"):
                c = o.I.load(o.r.st, CWD)
                new = cc.concrete(tm.eq(("p", 64), c, o.I.load(type(o.r.st)(), CWD)), {}) if c is not o.I.load(type(o.r.st)(), CWD) else True
                ctx.ob(bool(new), "working directory", wh, "%s leaves the working directory changed" % what, what + " directory")
                ctx.count("wrappers")
    # nothing else names a CSPICE routine
    spice = {f.id for f in P.fns.values() if f.key.endswith("_c") and f.key[:-2].isalnum()}
    ctx.sample("CSPICE routines: " + " ".join(sorted(P.fns[i].key for i in spice)))
    ctx.require(len(spice) >= 8, "CSPICE routines")
    for f in P.defs:
        if not f.has_body or f.key.startswith(("verif_w", "K::")) or f.id in spice or f.file.startswith("/"):
            continue
        hit = sorted({P.fns[n.get("f")].key for n in f.walk() if n.a and n.get("f") in spice} | {P.fns[n.get("d")].key for n in f.walk() if n.a and n.get("d") in spice})
        if not hit:
            continue
        ctx.count("functions that name CSPICE routines")
        if f.id in seen:
            continue
        # a routine called elsewhere: followed with everything unknown
        o = generic(P, W, f, models)
        what = "%s (%s)" % (f.q, ", ".join(hit))
        if o is None:
            ctx.count("undetermined")
            ctx.notes.append("%s is not followed" % what)
        else:
            ctx.ob(o, "errors reach the caller", "%s:%s" % (f.file, f.line), "%s returns without having looked at the error signal of a CSPICE routine it called" % what, what)
    ctx.require(ctx.cov.get("wrappers", 0) > 20, "SPICE wrappers")
