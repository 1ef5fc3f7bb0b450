"""Two small functions have the same effects: the same calls of a vocabulary of operations (with the same receivers and
arguments), the same writes to the caller's objects, the same result and the same outcome, on every path of both."""
from . import absint
from . import fx
from . import terms as tm
from .terms import mk, T

EV = mk("glob", "verif_events")
GET = "huira::Handle::get_"
VALID = "huira::Handle::valid"


def value(I, st, v, ti):
    """The value an argument or result denotes."""
    if v is None:
        return mk("none")
    t = I.P.ty(ti)
    while t["k"] == "ref":
        ti = t["p"]
        t = I.P.ty(ti)
        if I.is_val(ti):
            return I.load(st, v, I.tc(ti))
    if I.is_val(ti):
        return v
    return flat(I, st, I.obj_value(st, v, ti))


def flat(I, st, v):
    return v


class Vocab:
    """Models that record calls of the named functions instead of following them."""

    def __init__(self, P, keys, const=True, make=True, handles=True, keep=()):
        self.P = P
        self.keys = set(keys)
        self.make = make
        self.handles = handles
        self.const = const

    def models(self):
        m = {k: (self.call, True) for k in self.keys}
        if self.handles:
            m[GET] = (self.target, True)
            m[VALID] = (self.isvalid, True)
        if self.make:
            m["std::make_shared"] = (self.makes, True)
            m["std::make_unique"] = (self.makes, True)
        return m

    def event(self, st, e):
        old = st.store.get(EV)
        st.store[EV] = mk("evs", old.a[0] + (e,)) if old is not None else mk("evs", (e,))

    def target(self, I, n, f, this, args, argn, on, st, fr):
        w = self.weak(I, st, this, f)
        return I.rec_result(n, st, fr, w if w.op == "new" else tm.settype(mk("target", w), absint.PT))

    def isvalid(self, I, n, f, this, args, argn, on, st, fr):
        w = self.weak(I, st, this, f)
        return tm.TRUE if w.op == "new" else tm.settype(mk("valid", w), ("b",))

    def weak(self, I, st, this, f):
        for r in [I.P.records[f.cls]]:
            for fd in r.get("fields", ()):
                if fd["n"] == "ptr_":
                    return I.load(st, tm.fld(this, fd["d"]))
        return I.load(st, this)

    def call(self, I, n, f, this, args, argn, on, st, fr):
        vals = []
        for i, (a, p) in enumerate(zip(args, f.params)):
            t = I.P.ty(p["t"])
            if t["k"] == "ref" and not I.P.ty(t["p"]).get("const") and not t.get("rv"):
                vals.append(mk("at", a))
            else:
                vals.append(value(I, st, a, p["t"]))
        pure = f.const or f.get("static") or f.cls is None
        who = this if this is not None and not f.get("static") else mk("none")
        e = mk("ev", f.id, who, tuple(vals))
        if not pure:
            old = st.store.get(EV)
            e = mk("ev", f.id, who, tuple(vals), sum(1 for x in old.a[0] if x.a[:3] == e.a[:3]) if old is not None else 0)
            self.event(st, e)
        rt = I.P.ty(f.ret)
        if rt["k"] == "void":
            return None
        if rt["k"] == "ref":
            return mk("ref", e)
        if I.is_val(f.ret):
            return tm.settype(e, I.tc(f.ret))
        return I.rec_result(n, st, fr, e)

    def makes(self, I, n, f, this, args, argn, on, st, fr):
        t = I.P.ty(I.P.deref_type(f.ret))
        et = t["targs"][0] if t.get("targs") else -1
        vals = []
        for i, (a, nd) in enumerate(zip(args, argn)):
            x = value(I, st, a, f.params[i]["t"]) if i < len(f.params) else a
            vals.append(x)
        tt = I.P.ty(et)
        return I.rec_result(n, st, fr, self.made(I, st, tt.get("rec", et), vals, tt["k"] == "rec"))

    def made(self, I, st, what, vals, rec=True):
        k = mk("made", what, tuple(vals))
        old = st.store.get(EV)
        if old is not None:
            nth = sum(1 for x in old.a[0] if x.op == "made" and x.a[:2] == k.a[:2])
            if nth:
                k = mk("made", what, tuple(vals), nth)
        self.event(st, k)
        if rec:
            I.dyn[k] = what
        return tm.settype(k, absint.PT)

    def new(self, I, n, i, rec, st, fr):
        f = I.P.fns.get(i.get("f")) if i is not None else None
        vals = []
        if f is not None:
            for j, (x, p) in enumerate(I.zip_args(i.c, f)):
                a = I.arg(x, p, st, fr)
                if st.dead:
                    return None
                vals.append(value(I, st, a, f.params[j]["t"]))
        return self.made(I, st, rec, vals)

    def setup(self, more=None):
        def go(I):
            if self.make:
                I.new_hook = self.new
            if more:
                more(I)
        return go


def rename(t, m, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(rename(x, m, memo) for x in t)
        return t
    r = memo.get(t)
    if r is None:
        if t in m:
            r = m[t]
        else:
            xs = [rename(x, m, memo) for x in t.a]
            if t.op == "eq" and len(xs) == 3 and isinstance(xs[1], T) and isinstance(xs[2], T) and xs[1].u > xs[2].u:
                xs[1], xs[2] = xs[2], xs[1]
            r = mk(t.op, *xs)
        memo[t] = r
    return r


def known(t):
    """Truth of a condition that does not depend on the state: a live object's address is not null."""
    if isinstance(t, T) and t.op == "eq":
        for x, y in ((t.a[-1], t.a[-2]), (t.a[-2], t.a[-1])):
            if isinstance(x, T) and x.op == "c" and isinstance(y, T) and y.op in ("target", "made"):
                return False
    if isinstance(t, T) and t.op in ("target", "made"):
        return True
    return None


def norm(tr):
    """A trail without negations and conjunctions that are settled."""
    out = []
    for t, k in tr:
        while isinstance(t, T) and t.op == "not":
            t, k = t.a[0], not k
        if isinstance(t, T) and t.op in ("and", "or") and k == (t.op == "and"):
            xs = t.a[0] if isinstance(t.a[0], tuple) else t.a
            out.extend(norm([(x, k) for x in xs]))
        else:
            out.append((t, k))
    return out


def possible(tr):
    return all(known(t) in (None, k) for t, k in norm(tr))


class Side:
    def __init__(self, W, name, vocab, limit=200, setup=None, ignore=None, **kw):
        self.ignore = ignore
        self.fn = W.fns[name]
        self.W = W
        ms = dict(vocab.models())
        ms.update(kw.pop("models", {}))
        self.paths, self.all = W.paths(name, models=ms, limit=limit, setup=vocab.setup(setup), **kw)
        self.paths = [x for x in self.paths if possible(x[0])]
        self.map = {mk("par", p["d"]): mk("par", "p%d" % i) for i, p in enumerate(self.fn.params)}
        self.memo = {}
        self.out = [self.summary(tr, o) for tr, o in self.paths]

    def ren(self, t):
        return rename(t, self.map, self.memo)

    def summary(self, tr, o):
        I, P = o.I, self.W.P
        trail = tuple((self.ren(t), k) for t, k in norm(tr) if known(t) is None)
        sts = []
        if o.r.st is not None:
            sts.append(("ret", o.r.st, o.r.val))
        for s, n, f in o.r.throws:
            sts.append(("throw", s, None))
        res = []
        for kind, st, v in sts:
            ev = st.store.get(EV)
            evs = tuple(self.ren(x) for x in ev.a[0]) if ev is not None else ()
            wr = {}
            sizes = {a.a[0]: x.a[0] for a, x in st.store.items() if a.op == "el" and a.a[1] == "$size" and x.op == "c"}
            sizes = {a: k for a, k in sizes.items() if k <= 64 and all(tm.el(a, tm.c(i)) in st.store for i in range(k))}
            for a, x in st.store.items():
                if a in sizes or a.op == "el" and a.a[0] in sizes and isinstance(a.a[1], T) and a.a[1].op == "c" and a.a[1].a[0] >= sizes[a.a[0]]:
                    continue  # (a sequence is its size and its elements)
                r = tm.root(a)
                if r.op == "par":
                    i = next((i for i, p in enumerate(self.fn.params) if p["d"] == r.a[0]), None)
                    if i is not None:
                        t = P.ty(self.fn.params[i]["t"])
                        if t["k"] not in ("ref", "ptr") or t.get("rv"):
                            continue
                elif r.op in ("var", "tmp", "glob"):
                    continue
                if self.ignore and self.ignore(a):
                    continue
                wr[self.ren(a)] = self.ren(x)
            val = mk("none")
            if v is not None and P.ty(self.fn.ret)["k"] != "void":
                val = self.ren(value(I, st, v, self.fn.ret))
            res.append((kind, evs, wr, val))
        more = []
        for st in [x for x in [o.r.st] if x is not None] + [x[0] for x in o.r.throws]:
            more += [(self.ren(t), k) for t, k in st.facts.items() if isinstance(t, T) and t.op in ("contains", "eq")]
        o.more = tuple(more)
        return trail, res, o


def compatible(a, b, more=()):
    """Can the conditions of both trails hold together? (equalities are closed under transitivity and congruence of contains)"""
    d = dict(a)
    if not all(d.get(t, k) == k for t, k in b):
        return False
    up = {}

    def find(x):
        while x in up:
            x = up[x]
        return x
    al = list(a) + list(b) + list(more)
    eqs = [(t.a[-2], t.a[-1], k) for t, k in al if isinstance(t, T) and t.op == "eq" and isinstance(t.a[-1], T) and isinstance(t.a[-2], T)]
    for x, y, k in eqs:
        if k:
            x, y = find(x), find(y)
            if x is not y:
                if x.op == "c" and y.op == "c":
                    return False
                if x.op == "c":
                    x, y = y, x
                up[x] = y
    for x, y, k in eqs:
        if not k and find(x) is find(y):
            return False
    atoms = {t: k for t, k in al if isinstance(t, T)}

    def ev(t):
        if t in atoms:
            return atoms[t]
        if isinstance(t, T) and t.op == "not":
            v = ev(t.a[0])
            return None if v is None else not v
        if isinstance(t, T) and t.op in ("and", "or"):
            vs = [ev(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a)]
            dom = t.op == "or"
            return dom if dom in vs else None if None in vs else not dom
        return None
    for t, k in al:
        if isinstance(t, T) and t.op in ("and", "or", "not"):
            vs = [ev(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a)]
            if t.op == "not":
                if vs[0] is not None and vs[0] == k:
                    return False
            else:
                dom = t.op == "or"
                v = dom if dom in vs else None if None in vs else not dom
                if v is not None and v != k:
                    return False
    has = {}
    for t, k in al:
        if isinstance(t, T) and t.op == "contains" and len(t.a) == 2:
            q = (t.a[0], find(t.a[1]))
            if has.setdefault(q, k) != k:
                return False
    return True


def show_ev(P, e, fields):
    if e.op == "ev":
        f = P.fns.get(e.a[0])
        who = "" if e.a[1].op == "none" else fields(e.a[1]) + "."
        return "%s%s(%s)" % (who, f.n if f else "?", ", ".join(fields(x) for x in e.a[2]))
    if e.op == "made":
        r = P.records.get(e.a[0])
        return "new %s(%s)" % (r.get("n") or r.get("key") if r else "?", ", ".join(fields(x) for x in e.a[1]))
    return fields(e)


def same(ctx, rule, W, impl, ref, vocab, alt=None, **kw):
    """One obligation: the two witnesses have the same effects (in terms of vocab, or of alt). Returns True/False/None."""
    r, msg, wh, site, n = compare(ctx, rule, W, impl, ref, vocab, **kw)
    ctx.count("pairs")
    if r is not True and alt is not None:
        r2, m2, _, _, n2 = compare(ctx, rule, W, impl, ref, alt, **dict(kw, limit=24, budget=60000))
        if r2 is True:
            r, n = True, n2
    if r is False:
        ctx.ob(False, rule, wh, msg, site)
        return False
    if r is None:
        ctx.count("undetermined")
        ctx.notes.append("%s: %s is undetermined (%s)" % (rule, site, msg))
        return None
    ctx.obligations += 1
    ctx.discharged += 1
    ctx.count("paths", n)
    return True


def compare(ctx, rule, W, impl, ref, vocab, where=None, site=None, ordered=False, say=None, limit=200, setup=None, **kw):
    """(same?, message, where, site, number of path pairs)"""
    A = Side(W, impl, vocab, limit=limit, setup=setup, **kw)
    B = Side(W, ref, vocab, limit=limit, setup=setup, **kw)
    P = W.P
    wh, q = fx.where_of(P, A.fn)
    wh = where or wh
    site = site or impl
    fdn = {}
    for r in P.records.values():
        for fd in r.get("fields", ()):
            fdn[fd["d"]] = fd["n"]

    def sh(t, d=0):
        if not isinstance(t, T):
            return str(t)
        if d > 6:
            return "…"
        if t.op == "par":
            i = str(t.a[0])[1:]
            return (A.fn.params[int(i)]["n"] if i.isdigit() and int(i) < len(A.fn.params) else i) or i
        if t.op in ("ld", "at", "target", "ref"):
            return sh(t.a[0], d + 1)
        if t.op == "fld":
            return sh(t.a[0], d + 1) + "." + fdn.get(t.a[1], "?")
        if t.op == "el":
            return "%s[%s]" % (sh(t.a[0], d + 1), sh(t.a[1], d + 1))
        if t.op == "agg":
            return "{%s}" % ", ".join(sh(x[1], d + 1) for x in t.a[0])
        if t.op in ("ev", "made"):
            return show_ev(P, t, lambda x: sh(x, d + 1))
        return tm.show(t)[:60]

    if not A.all or not B.all:
        return None, "too many paths", wh, site, 0
    bad = None
    und = None
    n = 0
    for ta, ra, oa in A.out:
        for tb, rb, ob in B.out:
            if not compatible(ta, tb, oa.more + ob.more):
                continue
            n += 1
            on = ""
            if ta:
                on = " when " + " and ".join(("" if k else "not ") + sh(t) for t, k in ta)[:200]
            if sorted(x[0] for x in ra) != sorted(x[0] for x in rb):
                o = [fx.opaque(t) for t, k in ta + tb]
                bad = bad or "%s%s, where it should %s" % ("throws" if any(x[0] == "throw" for x in ra) else "returns", on, "throw" if any(x[0] == "throw" for x in rb) else "return")
                continue
            for xa, xb in zip(ra, rb):
                ea, eb = xa[1], xb[1]
                if not ordered:
                    ea, eb = tuple(sorted(ea, key=lambda x: x.u)), tuple(sorted(eb, key=lambda x: x.u))
                m = None
                d1 = [e for e in xa[1] if e not in xb[1]]
                d2 = [e for e in xb[1] if e not in xa[1]]
                if ea != eb:
                    s1 = "; ".join(show_ev(P, e, sh) for e in (d1 or xa[1])) or "nothing"
                    s2 = "; ".join(show_ev(P, e, sh) for e in (d2 or xb[1])) or "nothing"
                    m = "does %s%s, where it should do %s" % (s1[:300], on, s2[:300])
                    ts = d1 + d2
                elif xa[2] != xb[2]:
                    ks = [k for k in set(xa[2]) | set(xb[2]) if xa[2].get(k) is not xb[2].get(k)]
                    k = sorted(ks, key=lambda x: x.u)[0]
                    m = "leaves %s at %s%s, where it should be %s" % (sh(k), sh(xa[2].get(k, mk("unchanged")))[:160], on, sh(xb[2].get(k, mk("unchanged")))[:160])
                    ts = [t for k in ks for t in (xa[2].get(k), xb[2].get(k)) if t is not None]
                elif xa[3] is not xb[3]:
                    m = "returns %s%s, where it should return %s" % (sh(xa[3])[:200], on, sh(xb[3])[:200])
                    ts = [xa[3]]
                if m:
                    if any(fx.opaque(t) is not None for t in ts):
                        und = m
                    else:
                        bad = bad or m
    if bad:
        return False, "%s %s" % (say or q, bad), wh, site, n
    if und or n == 0:
        return None, und or "no common path", wh, site, n
    return True, "", wh, site, n
