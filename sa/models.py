"""What the standard library, GLM and TBB functions the code calls do to the abstract state."""
from . import terms as tm
from .terms import mk, c, TRUE, FALSE, NULL, ZERO, isc
from .absint import MODELS, CTORS, FT, I64, U64, PT, BT


def model(*keys, repo=False):
    def d(fn):
        for k in keys:
            MODELS[k] = (fn, repo)
        return fn
    return d


def ctor(*keys):
    def d(fn):
        for k in keys:
            CTORS[k] = fn
        return fn
    return d


def has(a):
    return tm.el(a, "$has")


def optv(a):
    return tm.el(a, "$val")


def size_of(I, st, a, t=None):
    if t is not None and I.kind(t) == "arr":
        return c(I.arr_n(t)[0])
    v = I.load(st, tm.el(a, "$size"), U64)
    return v


def set_size(I, st, a, v):
    if a not in st.store:
        st.store[a] = mk("seqbase", a, I.version(st, a))
    st.store[tm.el(a, "$size")] = tm.settype(v, U64)


def clobber_elems(I, st, a, n, fr):
    for k in I.subs(st, a):
        x = k
        while tm.parent(x) is not a and tm.parent(x) is not None:
            x = tm.parent(x)
        if isinstance(x.a[1], str):
            continue
        del st.store[k]
    st.clob[("el", a)] = I.tok(n, fr)
    if a in st.store:
        sz = st.store.get(tm.el(a, "$size"))
        if sz is None:
            sz = tm.prj(st.store[a], "$size")
        st.store[a] = mk("hv", n.fn.id, n.i, fr.id, "els")
        st.store[tm.el(a, "$size")] = sz


def arg_val(I, st, v, f, i, argn=None):
    """Value of argument i (loads it when it is passed by reference)."""
    if i < len(f.params):
        t = I.P.ty(f.params[i]["t"])
        if t["k"] == "ref":
            return I.load(st, v, I.tc(f.params[i]["t"]))
    return v


def scalar_result(I, n, f, st, fr, v):
    if I.P.ty(f.ret)["k"] == "ref":
        a = I.tmp(n, fr, "mdl")
        st.store[a] = v
        return a
    if I.is_val(f.ret):
        return v
    return I.rec_result(n, st, fr, v)


@model("isatty")
def m_isatty(I, n, f, this, args, argn, on, st, fr):
    return tm.c(0) if I.split is not None else NotImplemented  # (whether the log has colours)


# ---- smart pointers ---------------------------------------------------------------------------
@model("std::__shared_ptr_access::operator->", "std::unique_ptr::operator->", "std::__shared_ptr_access::operator*",
       "std::unique_ptr::operator*")
def sp_deref(I, n, f, this, args, argn, on, st, fr):
    v = I.load(st, this, PT)
    # -> is checked by the member access that follows it
    if f.n.endswith("*") and not I.quiet:
        I.H.on_deref(I, st, v, n, fr, "*")
    return v


@model("std::__shared_ptr::get", "std::unique_ptr::get")
def sp_get(I, n, f, this, args, argn, on, st, fr):
    return I.load(st, this, PT)


@model("std::__shared_ptr::(conv)", "std::unique_ptr::(conv)")
def sp_bool(I, n, f, this, args, argn, on, st, fr):
    return tm.not_(tm.eq(PT, I.load(st, this, PT), NULL))


@model("std::__shared_ptr::reset", "std::unique_ptr::reset")
def sp_reset(I, n, f, this, args, argn, on, st, fr):
    I.store(st, this, args[0] if args else NULL, n, fr)
    return None


@model("std::unique_ptr::release")
def sp_release(I, n, f, this, args, argn, on, st, fr):
    v = I.load(st, this, PT)
    I.store(st, this, NULL, n, fr)
    return v


@model("std::shared_ptr::operator=", "std::unique_ptr::operator=")
def sp_assign(I, n, f, this, args, argn, on, st, fr):
    v = ptr_value(I, st, args[0], argn[0])
    I.store(st, this, v, n, fr)
    return this


def ptr_value(I, st, v, node):
    if v.op == "c":
        return v
    k = I.kind(node.t)
    if k == "sptr" or node.get("lv"):
        return I.load(st, v, PT)
    t = I.P.ty(node.t)
    if t["k"] == "rec":
        return I.load(st, v, PT)
    if v.op == "tmp" and v in st.store:
        return st.store[v]
    return v


@ctor("std::shared_ptr", "std::unique_ptr", "std::__shared_ptr")
def sp_ctor(I, n, a, f, args, st, fr):
    xs = [x for x in n.c if x is not None]
    if not args or not xs:
        I.store(st, a, NULL)
        return
    if len(args) > 1 and I.kind(xs[0].t) == "sptr" and I.P.ty(xs[1].t)["k"] == "ptr":
        I.store(st, a, args[1])  # aliasing constructor
        return
    I.store(st, a, ptr_value(I, st, args[0], xs[0]))


@ctor("std::function")
def fun_ctor(I, n, a, f, args, st, fr):
    I.kill_sub(st, a)
    v = args[0] if args else NULL
    if v is not None and v in I.lams:
        st.store[a] = mk("fun", v)
    elif v is not None and (v.op == "fnref" or v is NULL):
        st.store[a] = v
    else:
        st.store[a] = I.fresh(n, fr)


@model("std::function::operator()")
def m_function_call(I, n, f, this, args, argn, on, st, fr):
    v = I.agg_val(st, this) if this is not None else None
    g = node = None
    if v is not None and v.op == "fun" and v.a[0] in I.lams:
        node, caps, home = I.lams[v.a[0]]
        gs = [I.P.fns.get(x) for x in node.get("lams") or []]
        g = gs[0] if len(gs) == 1 else None
    elif v is not None and v.op == "fnref":
        g = I.P.fns.get(v.a[0])
    if g is None or g.ext or not I.can_inline(g, fr) or len(args) != len(g.params):
        return NotImplemented
    xs = []
    for i, (x, p) in enumerate(zip(args, g.params)):
        ref = I.P.ty(p["t"])["k"] == "ref"
        fref = i < len(f.params) and I.P.ty(f.params[i]["t"])["k"] == "ref"
        if ref and not fref and i < len(f.params) and I.is_val(f.params[i]["t"]):
            t = I.tmp(n, fr, "fa%d" % i)
            I.store(st, t, x)
            x = t
        elif not ref and fref and I.is_val(p["t"]):
            x = I.load(st, x, I.tc(p["t"]))
        xs.append(x)
    if node is not None:
        return I.invoke_env(g, home.this, xs, n, st, fr, caps, home)
    return I.invoke(g, None, xs, n, st, fr)


@ctor("std::weak_ptr")
def wp_ctor(I, n, a, f, args, st, fr):
    I.store(st, a, I.load(st, args[0]) if args else NULL)


@model("std::weak_ptr::operator=")
def wp_assign(I, n, f, this, args, argn, on, st, fr):
    I.store(st, this, I.load(st, args[0]), n, fr)
    return this


@model("std::weak_ptr::lock")
def wp_lock(I, n, f, this, args, argn, on, st, fr):
    w = I.load(st, this)
    return I.rec_result(n, st, fr, w if w is NULL or w.op in ("made", "new") else tm.settype(mk("lock", w), PT))


@model("std::__weak_ptr::expired", "std::weak_ptr::expired")
def wp_expired(I, n, f, this, args, argn, on, st, fr):
    w = I.load(st, this)
    return TRUE if w is NULL else FALSE if w.op in ("made", "new") else tm.eq(PT, mk("lock", w), NULL)


@model("std::make_shared", "std::make_unique")
def make_ptr(I, n, f, this, args, argn, on, st, fr):
    v = mk("new", fr.fn.id, n.i, fr.id)
    t = I.P.ty(I.P.deref_type(f.ret))
    et = t["targs"][0] if t.get("targs") else -1
    tt = I.P.ty(et)
    if tt["k"] == "rec":
        I.dyn[v] = tt["rec"]
        g = find_ctor(I, tt["rec"], args, argn)
        I.kill_sub(st, v)
        st.store.pop(v, None)
        if g is not None and not g.ext and (g.body is not None or g.inits) and I.can_inline(g, fr):
            a2 = []
            for x, p, nd in zip(args, g.params, argn):
                pk = I.P.ty(I.P.deref_type(p["t"])).get("key")
                if pk == "std::variant" and I.P.ty(I.P.deref_type(nd.t)).get("key") != pk:
                    a2.append(as_variant(I, st, x, nd, p["t"], n, fr))
                elif I.P.ty(p["t"])["k"] == "ref":
                    a2.append(x)
                elif I.is_val(p["t"]):
                    a2.append(I.load(st, x, I.tc(p["t"])) if nd.get("lv") or x.op in ("tmp", "var", "fld", "par", "el") else x)
                else:
                    a2.append(x)
            if not I.quiet:
                I.H.on_call(I, st, g, n, v, a2, fr)
            I.invoke(g, v, a2, n, st, fr)
        elif g is not None and g.sp in ("copy", "move") and args:
            I.copy_obj(st, v, args[0], et)
        elif g is not None and g.sp == "default" and not g.ext and g.body is None:
            I.default_fields(I.P.records[tt["rec"]], v, st, fr, n)
        else:
            st.store[v] = I.fresh(n, fr, "obj")
    return I.rec_result(n, st, fr, v)


def as_variant(I, st, x, nd, ti, n, fr):
    """A variant constructed from x (an implicit conversion inside make_shared)."""
    a = I.tmp(n, fr, "var%d" % nd.i)
    I.kill_sub(st, a)
    t = I.P.deref_type(nd.t)
    nm = I.P.tstr(t).replace("const ", "")
    alts = [I.P.tstr(y) for y in I.P.ty(I.P.deref_type(ti)).get("targs") or () if y >= 0]
    if nm not in alts:
        st.store[a] = I.fresh(n, fr, "variant")
        return a
    st.store[a] = mk("variant", nm, n.fn.id, n.i, fr.id)
    if I.is_val(t):
        st.store[tm.el(a, "$alt:" + nm)] = I.load(st, x, I.tc(t)) if nd.get("lv") or x.op in ("tmp", "var", "fld", "par", "el") else x
    else:
        I.copy_obj(st, tm.el(a, "$alt:" + nm), x, t, n, fr)
    return a


def find_ctor(I, rec, args, argn):
    best = None
    for f in I.P.fns.values():
        if f.cls != rec or f.sp not in ("ctor", "default", "copy", "move"):
            continue
        if len(f.params) < len(args):
            continue
        s = 0
        ok = True
        for nd, p in zip(argn, f.params):
            a = I.P.ty(I.P.deref_type(nd.t))
            b = I.P.ty(I.P.deref_type(p["t"]))
            if a["k"] == "rec" and b["k"] == "rec":
                if a["rec"] == b["rec"]:
                    s += 4
                elif I.kind(nd.t) == "sptr" and I.kind(p["t"]) == "sptr":
                    s += 2
                elif b["rec"] in I.P.bases(a["rec"]):
                    s += 3
                elif f.sp in ("copy", "move"):
                    ok = False
                else:
                    s -= 1
            elif a["k"] == b["k"]:
                s += 3
            elif a["k"] == "rec" or b["k"] == "rec":
                s -= 1
                if f.sp in ("copy", "move"):
                    ok = False
            if I.P.ty(p["t"]).get("rv") and nd.get("lv") and nd.k == "DeclRefExpr":
                s -= 1
        if not ok:
            continue
        s -= 3 * (len(f.params) - len(args))
        if best is None or s > best[0]:
            best = (s, f)
    return best[1] if best else None


@model("std::dynamic_pointer_cast")
def dyn_cast(I, n, f, this, args, argn, on, st, fr):
    v = I.load(st, args[0], PT)
    t = I.P.ty(I.P.deref_type(f.ret)).get("targs") or [-1]
    return I.rec_result(n, st, fr, I.dynamic_cast(v, f.ret, t[0]))


@model("std::static_pointer_cast", "std::const_pointer_cast")
def static_pcast(I, n, f, this, args, argn, on, st, fr):
    return I.rec_result(n, st, fr, I.load(st, args[0], PT))


@model("std::enable_shared_from_this::shared_from_this")
def sft(I, n, f, this, args, argn, on, st, fr):
    return I.rec_result(n, st, fr, this)


@model("std::enable_shared_from_this::weak_from_this")
def wft(I, n, f, this, args, argn, on, st, fr):
    return I.rec_result(n, st, fr, this)


@model("std::operator==", "std::operator!=", "std::operator<", "__gnu_cxx::operator==", "__gnu_cxx::operator!=",
       "__gnu_cxx::operator<", "__gnu_cxx::operator-", "std::__detail::operator==", "std::__detail::operator!=")
def std_cmp(I, n, f, this, args, argn, on, st, fr):
    op = n.get("op") or f.n.replace("operator", "")
    k0, k1 = I.kind(argn[0].t), I.kind(argn[1].t)
    if k0 in ("sptr", "iter") or k1 in ("sptr", "iter"):
        x, y = ptr_value(I, st, args[0], argn[0]), ptr_value(I, st, args[1], argn[1])
        if op == "-":
            s = tm._elsplit(x, y)
            return tm.sub(I64, s[0], s[1]) if s else tm.sub(I64, x, y)
        return I.compare(op, PT, x, y)
    if op in ("==", "!="):
        t0 = I.P.ty(I.P.deref_type(argn[0].t))
        et = I.elem_t(argn[0].t) if t0["k"] == "rec" and t0["key"] == "std::array" else -1
        if et >= 0 and I.is_val(et):
            sz = size_of(I, st, args[0], argn[0].t)
            if isc(sz) and sz.a[0] <= 64:
                tc = I.tc(et)
                r = TRUE
                for i in range(sz.a[0]):
                    r = tm.and_(r, I.compare("==", tc, I.load(st, tm.el(args[0], c(i)), tc), I.load(st, tm.el(args[1], c(i)), tc)))
                return r if op == "==" else tm.not_(r)
        x, y = I.obj_value(st, args[0], argn[0].t), I.obj_value(st, args[1], argn[1].t)
        r = mk("eq", None, x, y) if x.u <= y.u else mk("eq", None, y, x)
        return r if op == "==" else tm.not_(r)
    return NotImplemented


# ---- optional ---------------------------------------------------------------------------------
@ctor("std::optional")
def opt_ctor(I, n, a, f, args, st, fr):
    opt_set(I, a, args[0] if args else None, [x for x in n.c if x is not None][:1], n.t, n, st, fr)


def opt_set(I, a, v, nodes, ti, n, st, fr):
    nd = nodes[0] if nodes else None
    st_ = I.P.ty(nd.t)["s"] if nd is not None else ""
    I.kill_sub(st, a)
    st.store.pop(a, None)
    if v is None or "nullopt" in st_:
        I.store(st, has(a), ZERO, n, fr)
        return
    if I.kind(nd.t) == "opt":
        I.copy_obj(st, a, v, nd.t, n, fr)
        return
    et = I.elem_t(ti)
    if et >= 0 and I.is_val(et):
        x = I.load(st, v, I.tc(et)) if (nd.get("lv") or v.op in ("tmp", "var", "fld", "par")) else v
        I.store(st, optv(a), x)
    elif et >= 0:
        I.copy_obj(st, optv(a), v, et)
    I.store(st, has(a), TRUE, n, fr)


@model("std::optional::operator=")
def opt_assign(I, n, f, this, args, argn, on, st, fr):
    opt_set(I, this, args[0], argn[:1], on.t, n, st, fr)
    return this


@model("std::optional::emplace")
def opt_emplace(I, n, f, this, args, argn, on, st, fr):
    I.clobber(st, optv(this), n, fr)
    I.store(st, has(this), TRUE, n, fr)
    return optv(this)


@model("std::optional::reset")
def opt_reset(I, n, f, this, args, argn, on, st, fr):
    I.store(st, has(this), ZERO, n, fr)
    return None


@model("std::optional::has_value", "std::optional::(conv)")
def opt_has(I, n, f, this, args, argn, on, st, fr):
    return I.load(st, has(this), BT)


@model("std::optional::operator*", "std::optional::operator->")
def opt_deref(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_deref(I, st, I.load(st, has(this), BT), n, fr, "opt")
    return optv(this)


@model("std::optional::value")
def opt_value(I, n, f, this, args, argn, on, st, fr):
    h = I.load(st, has(this), BT)
    throw_unless(I, h, n, st, fr)
    return optv(this)


@model("std::optional::value_or")
def opt_value_or(I, n, f, this, args, argn, on, st, fr):
    h = I.load(st, has(this), BT)
    et = I.elem_t(on.t)
    if et >= 0 and I.is_val(et):
        y = I.load(st, args[0], I.tc(et)) if args[0].op in ("tmp", "var", "fld", "par", "el") else args[0]
        return tm.ite(h, I.load(st, optv(this), I.tc(et)), y)
    return I.rec_result(n, st, fr, I.fresh(n, fr))


def throw_unless(I, cond, n, st, fr):
    t, fl = I.branch(st.copy(), cond)
    if fl is not None:
        I.throw(n, fl, fr)
    if t is None:
        st.dead = True
        return
    p = st.path
    st.become(t)
    st.path = p


# ---- variant ----------------------------------------------------------------------------------
@ctor("std::variant")
def var_ctor(I, n, a, f, args, st, fr):
    I.kill_sub(st, a)
    xs = [x for x in n.c if x is not None]
    v = args[0] if args else None
    nm = I.P.tstr(I.P.deref_type(xs[0].t)).replace("const ", "") if xs else ""
    alts = [I.P.tstr(t) for t in I.P.ty(n.t).get("targs") or () if t >= 0]
    if v is None or nm not in alts:
        st.store[a] = I.fresh(n, fr, "variant")
        return
    st.store[a] = mk("variant", nm, n.fn.id, n.i, fr.id)
    t = I.P.deref_type(xs[0].t)
    if I.is_val(t):
        I.store(st, tm.el(a, "$alt:" + nm), arg_val(I, st, v, f, 0), n, fr)
    else:
        I.copy_obj(st, tm.el(a, "$alt:" + nm), v, t, n, fr)


def holding(v, nm):
    if v is not None and v.op == "variant":
        return TRUE if v.a[0] == nm else FALSE
    return tm.settype(mk("holds", v, nm), BT)


@model("std::holds_alternative")
def holds(I, n, f, this, args, argn, on, st, fr):
    return holding(I.load(st, args[0]), ",".join(f.get("targs", [])[:1]))


@model("std::get")
def std_get(I, n, f, this, args, argn, on, st, fr):
    if I.P.ty(I.P.deref_type(argn[0].t)).get("key") in ("std::pair", "std::tuple"):
        i = (f.get("targs") or ("",))[0].rstrip("ULul")
        i = i if i.isdigit() else None
        a = I.tuple_part(argn[0].t, args[0], int(i)) if i is not None and args[0] is not None else None
        return a if a is not None else NotImplemented
    return tm.el(args[0], "$alt:" + ",".join(f.get("targs", [])[:1]))


@model("std::get_if")
def std_get_if(I, n, f, this, args, argn, on, st, fr):
    h = holding(I.load(st, args[0]), ",".join(f.get("targs", [])[:1]))
    return tm.ite(h, tm.el(args[0], "$alt:" + ",".join(f.get("targs", [])[:1])), NULL)


@model("std::visit")
def std_visit(I, n, f, this, args, argn, on, st, fr):
    info = I.lams.get(args[0])
    if info is None:
        return NotImplemented
    node, caps, home = info
    items = []
    base = len(st.path)
    cur = st.copy()
    var = args[1]
    vv = I.load(st, var)
    fs = [I.P.fns[x] for x in node.get("lams") or [] if x in I.P.fns and not I.P.fns[x].ext]
    for i, g in enumerate(fs):
        if cur is None:
            break
        pt = I.P.tstr(I.P.deref_type(g.params[0]["t"])).replace("const ", "")
        k = holding(vv, pt)
        if k is FALSE:
            continue
        if i == len(fs) - 1 or k is TRUE:
            t, cur = cur, None
        else:
            t, cur = I.branch(cur, k)
        if t is None:
            continue
        r = I.invoke_env(g, home.this, [tm.el(var, "$alt:" + pt)], node, t, fr, caps, home)
        if not t.dead:
            items.append((t, r))
    m, v = I.merge(items, base, ("visit",) + I.nk(n, fr))
    if m is None:
        st.dead = True
        return I.fresh(n, fr)
    st.become(m)
    if v is None and I.P.ty(f.ret)["k"] != "void":
        return I.unknown(n, st, fr)
    return v


# ---- sequences --------------------------------------------------------------------------------
SQ = ["std::vector", "std::span", "std::array", "std::basic_string", "std::initializer_list", "std::basic_string_view"]


def seqmodel(*names):
    return model(*[q + "::" + x for q in SQ for x in names])


def is_span(I, on):
    t = I.P.ty(I.P.deref_type(on.t))
    if t["k"] == "ptr":
        t = I.P.ty(I.P.deref_type(t["p"]))
    return t["k"] == "rec" and t["key"] in ("std::span", "std::initializer_list")


def elem(I, st, this, i, on):
    if is_span(I, on) and I.P.ty(I.P.deref_type(on.t)).get("key") == "std::span":
        return tm.padd(I.load(st, tm.el(this, "$ptr"), PT), i)
    return tm.el(this, i)


def seq_size(I, st, this, on):
    t = on.t
    if I.P.ty(I.P.deref_type(t))["k"] == "ptr":
        t = I.P.ty(I.P.deref_type(t))["p"]
    return size_of(I, st, this, t)


@seqmodel("size", "length")
def v_size(I, n, f, this, args, argn, on, st, fr):
    return seq_size(I, st, this, on)


@seqmodel("empty")
def v_empty(I, n, f, this, args, argn, on, st, fr):
    return tm.eq(U64, seq_size(I, st, this, on), ZERO)


@seqmodel("operator[]")
def v_index(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_index(I, st, this, args[0], n, fr, ("seq", on))
    return elem(I, st, this, args[0], on)


@seqmodel("at")
def v_at(I, n, f, this, args, argn, on, st, fr):
    throw_unless(I, tm.lt(U64, args[0], seq_size(I, st, this, on)), n, st, fr)
    return elem(I, st, this, args[0], on)


@seqmodel("front")
def v_front(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_index(I, st, this, ZERO, n, fr, ("seq", on))
    return elem(I, st, this, ZERO, on)


@seqmodel("back")
def v_back(I, n, f, this, args, argn, on, st, fr):
    i = tm.sub(U64, seq_size(I, st, this, on), c(1))
    tm.settype(i, U64)
    if not I.quiet:
        I.H.on_index(I, st, this, i, n, fr, ("seq", on))
    return elem(I, st, this, i, on)


@seqmodel("data", "c_str")
def v_data(I, n, f, this, args, argn, on, st, fr):
    return elem(I, st, this, ZERO, on)


@seqmodel("begin", "cbegin")
def v_begin(I, n, f, this, args, argn, on, st, fr):
    return scalar_result(I, n, f, st, fr, elem(I, st, this, ZERO, on))


@seqmodel("end", "cend")
def v_end(I, n, f, this, args, argn, on, st, fr):
    return scalar_result(I, n, f, st, fr, elem(I, st, this, seq_size(I, st, this, on), on))


@model("std::vector::push_back", "std::vector::emplace_back")
def v_push(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_store(I, st, this, args[0] if args else ZERO, n, fr)
    s = seq_size(I, st, this, on)
    et = I.elem_t(on.t)
    a = tm.el(this, s)
    if f.n == "push_back" and et >= 0:
        if I.is_val(et):
            I.store(st, a, I.load(st, args[0], I.tc(et)) if args[0].op in ("tmp", "var", "fld", "par", "el") else args[0], None, fr)
        else:
            I.copy_obj(st, a, args[0], et, None, fr)
    elif et >= 0 and not emplace(I, st, a, et, f, args, argn, n, fr):
        clobber_elems(I, st, this, n, fr)
    set_size(I, st, this, tm.add(U64, s, c(1)))
    return a


def emplace(I, st, a, et, f, args, argn, n, fr):
    """Construct an element at address a from the arguments of emplace; False if how is not known."""
    t = I.P.ty(et)
    if I.is_val(et):
        if len(args) != 1 or not I.is_val(argn[0].t):
            return False
        v = I.load(st, args[0], I.tc(argn[0].t))
        I.store(st, a, mk("cast", I.tc(et), v) if I.tc(et) != I.tc(argn[0].t) else v)
        return True
    if len(args) == 1 and I.P.tstr(I.P.deref_type(argn[0].t)).replace("const ", "") == I.P.tstr(et).replace("const ", ""):
        I.copy_obj(st, a, args[0], et, n, fr)
        return True
    r = I.P.records.get(t.get("rec", -1))
    if t.get("key") == "std::pair" and r is not None and len(r.get("fields", ())) == 2 and len(args) == 2:
        for v, nd, fd in zip(args, argn, r["fields"]):
            da = tm.fld(a, fd["d"])
            if I.is_val(fd["t"]):
                if not I.is_val(nd.t):
                    return False
                x = I.load(st, v, I.tc(nd.t))
                I.store(st, da, mk("cast", I.tc(fd["t"]), x) if I.tc(fd["t"]) != I.tc(nd.t) else x)
            else:
                I.copy_obj(st, da, v, fd["t"])
        return True
    return False


@model("std::vector::pop_back")
def v_pop(I, n, f, this, args, argn, on, st, fr):
    s = seq_size(I, st, this, on)
    if not I.quiet:
        I.H.on_index(I, st, this, tm.sub(U64, s, c(1)), n, fr, ("seq", on))
        I.H.on_store(I, st, this, s, n, fr)
    set_size(I, st, this, tm.sub(U64, s, c(1)))
    return None


@model("std::vector::resize", "std::vector::assign", "std::basic_string::resize")
def v_resize(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_store(I, st, this, args[0] if args else ZERO, n, fr)
    clobber_elems(I, st, this, n, fr)
    if len(argn) >= 1 and I.P.ty(I.P.deref_type(argn[0].t))["k"] == "int":
        s = args[0]
        if I.P.ty(f.params[0]["t"])["k"] == "ref":
            s = I.load(st, s, U64)
        set_size(I, st, this, s)
    else:
        set_size(I, st, this, I.fresh(n, fr, "size"))
    return None


@model("std::vector::reserve", "std::vector::shrink_to_fit", "std::basic_string::reserve")
def v_reserve(I, n, f, this, args, argn, on, st, fr):
    return None


@model("std::vector::clear", "std::basic_string::clear")
def v_clear(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_store(I, st, this, ZERO, n, fr)
    clobber_elems(I, st, this, n, fr)
    set_size(I, st, this, ZERO)
    return None


def equal_elems(I, st, a, b, et):
    """a == b for elements of a type whose equality is equality of values (None: not known)."""
    if I.is_val(et):
        return tm.eq(I.tc(et), I.load(st, a, I.tc(et)), I.load(st, b, I.tc(et)))
    k = I.kind(et)
    if k in ("sptr", "iter"):
        return tm.eq(PT, I.load(st, a, PT), I.load(st, b, PT))
    if I.P.ty(I.P.deref_type(et)).get("key") == "std::basic_string":
        return str_eq(I.obj_value(st, a, et), I.obj_value(st, b, et))
    return None


def str_eq(x, y):
    if x is y:
        return TRUE
    return mk("eq", None, x, y) if x.u <= y.u else mk("eq", None, y, x)


def keep_elems(I, st, a, et, keep, n, fr):
    """Leaves only the elements i of the vector at a with keep[i]."""
    j = 0
    for i, k in enumerate(keep):
        if not k:
            continue
        if i != j:
            I.copy_obj(st, tm.el(a, c(j)), tm.el(a, c(i)), et, n, fr)
        j += 1
    for i in range(j, len(keep)):
        I.kill_sub(st, tm.el(a, c(i)))
        st.store.pop(tm.el(a, c(i)), None)
    set_size(I, st, a, c(j))
    return j


def erase_paths(I, n, f, this, args, argn, on, st, fr):
    """erase of elements of a vector of constant size, when paths are followed one by one; None: not of that form."""
    a = this if this is not None else args[0]
    nd = on if this is not None else argn[0]
    if I.kind(nd.t) != "seq":
        return None
    s = I.subst(st, seq_size(I, st, a, nd))
    et = I.elem_t(nd.t)
    if not isc(s) or s.a[0] > 16 or et < 0 or not isc(s):
        return None
    N = s.a[0]
    if this is not None:
        if f.n != "erase":
            return None
        z = ZERO
        p = tm._elsplit(ptr_value(I, st, args[0], argn[0]), tm.el(a, z))
        i = p and I.subst(st, tm.sub(U64, p[0], p[1]))
        if i is None or not isc(i) or not 0 <= i.a[0] <= N:
            return None
        j = c(i.a[0] + 1)
        if len(args) > 1:
            q = tm._elsplit(ptr_value(I, st, args[1], argn[1]), tm.el(a, z))
            j = q and I.subst(st, tm.sub(U64, q[0], q[1]))
            if j is None or not isc(j):
                return None
        elif i.a[0] >= N:
            return None
        keep_elems(I, st, a, et, [not i.a[0] <= x < j.a[0] for x in range(N)], n, fr)
        return I.rec_result(n, st, fr, tm.el(a, i)) if not I.is_val(f.ret) else tm.el(a, i)
    keep = []
    for x in range(N):
        if f.n == "erase":
            b = equal_elems(I, st, tm.el(a, c(x)), args[1], et) if not I.is_val(argn[1].t) else tm.eq(I.tc(et), I.load(st, tm.el(a, c(x)), I.tc(et)), args[1])
        else:
            done, b = closure(I, st, args[1], [(tm.el(a, c(x)), et)], n, fr)
            if not done:
                return None
        k = I.decide(st, b) if b is not None else None
        if k is None:
            return None
        keep.append(not k)
    j = keep_elems(I, st, a, et, keep, n, fr)
    return c(N - j)


@model("std::find", "std::ranges::__find_fn::operator()", "std::remove", "std::remove_if", "std::count")
def v_find(I, n, f, this, args, argn, on, st, fr):
    if I.split is None:
        return NotImplemented
    sp = span_of(I, st, args, argn)
    if sp is None or len(args) <= sp[2]:
        return NotImplemented
    et = sp[1]
    v = args[sp[2]]
    found, keep = None, []
    for a in sp[0]:
        if f.n == "remove_if":
            done, b = closure(I, st, v, [(a, et)], n, fr)
            if not done:
                return NotImplemented
        elif I.is_val(argn[sp[2]].t) and I.is_val(et):
            b = tm.eq(I.tc(et), I.load(st, a, I.tc(et)), v if v.op not in ("tmp", "var", "fld", "par", "el") or not argn[sp[2]].get("lv") else I.load(st, v, I.tc(et)))
        else:
            b = equal_elems(I, st, a, v, et)
        k = I.decide(st, b) if b is not None else None
        if k is None:
            return NotImplemented
        keep.append(not k)
        if k and found is None:
            found = a
            if "find" in f.key:
                break
    if f.n == "count":
        return c(sum(not k for k in keep))
    if "remove" in f.key:
        if not sp[0]:
            return scalar_result(I, n, f, st, fr, ptr_value(I, st, args[0], argn[0]))
        j = 0
        for i, k in enumerate(keep):
            if k:
                if i != j:
                    I.copy_obj(st, sp[0][j], sp[0][i], et, n, fr)
                j += 1
        r = sp[0][j] if j < len(sp[0]) else tm.padd(sp[0][0], c(len(sp[0])))
        return scalar_result(I, n, f, st, fr, r)
    if found is None:
        if sp[2] == 2:
            found = ptr_value(I, st, args[1], argn[1])
        else:
            found = tm.el(args[0], c(len(sp[0])))
    return scalar_result(I, n, f, st, fr, found)


@model("std::vector::insert", "std::vector::erase", "std::vector::emplace", "std::erase_if", "std::erase")
def v_insert(I, n, f, this, args, argn, on, st, fr):
    a = this if this is not None else args[0]
    if I.split is not None and f.n in ("erase", "erase_if"):
        r = erase_paths(I, n, f, this, args, argn, on, st, fr)
        if r is not None:
            return r
    if not I.quiet:
        I.H.on_store(I, st, a, args[0], n, fr)
    I.clobber_args(args, f, argn, st, n, fr)
    clobber_elems(I, st, a, n, fr)
    set_size(I, st, a, tm.settype(I.fresh(n, fr, "size"), U64))
    if I.P.ty(f.ret)["k"] == "void":
        return None
    if I.is_val(f.ret):
        return I.unknown(n, st, fr)
    return I.rec_result(n, st, fr, tm.el(a, tm.settype(I.fresh(n, fr, "pos"), I64)))


def fill_elems(I, st, a, s, et, f, args):
    """Elements 0..s-1 of a new vector(s) or vector(s, value), when s is a small constant."""
    if not isc(s) or not 0 < s.a[0] <= 64 or et < 0:
        return
    if len(args) > 1 and "alloc" not in I.P.tstr(f.params[1]["t"]).split("<")[0]:
        if I.P.ty(f.params[1]["t"])["k"] != "ref":
            return
        for i in range(s.a[0]):
            I.copy_obj(st, tm.el(a, c(i)), args[1], et)
        return
    k = I.P.ty(et)["k"]
    if k in ("int", "float", "bool", "enum", "ptr"):
        for i in range(s.a[0]):
            st.store[tm.el(a, c(i))] = ZERO
    elif I.kind(et) == "vec":
        for i in range(s.a[0]):
            for j in range(I.vec_n(et)):
                st.store[tm.el(tm.el(a, c(i)), c(j))] = ZERO


@ctor("std::vector")
def v_ctor(I, n, a, f, args, st, fr):
    xs = [x for x in n.c if x is not None]
    I.kill_sub(st, a)
    for k in [k for k in st.clob if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tm.T) and (k[1] is a or I.under(k[1], a))]:
        del st.clob[k]
    st.store[a] = I.fresh(n, fr, "vec")
    if not args or f.params and "alloc" in I.P.tstr(f.params[0]["t"]).split("<")[0]:
        st.store[tm.el(a, "$size")] = ZERO
        return
    t0 = I.P.ty(I.P.deref_type(xs[0].t))
    if t0["k"] in ("int", "enum", "bool"):
        s = args[0]
        if I.P.ty(f.params[0]["t"])["k"] == "ref":
            s = I.load(st, s, U64)
        st.store[tm.el(a, "$size")] = tm.settype(s, U64)
        fill_elems(I, st, a, s, I.elem_t(n.t), f, args)
        return
    if t0["k"] == "rec" and t0["key"] == "std::initializer_list":
        v = tm.el(args[0], "$size")
        s = I.load(st, v, U64)
        st.store[tm.el(a, "$size")] = s
        et = I.elem_t(n.t)
        if isc(s) and s.a[0] <= 16 and et >= 0:
            for i in range(s.a[0]):
                I.copy_obj(st, tm.el(a, c(i)), tm.el(args[0], c(i)), et)
        return
    if len(args) >= 2:
        x = ptr_value(I, st, args[0], xs[0])
        y = ptr_value(I, st, args[1], xs[1])
        sp = (ZERO, ZERO) if x is y else tm._elsplit(y, x)
        if sp:
            k = I.subst(st, tm.settype(tm.sub(U64, sp[0], sp[1]), U64))
            st.store[tm.el(a, "$size")] = k
            et = I.elem_t(n.t)
            if isc(k) and 0 <= k.a[0] <= 16 and et >= 0:
                for i in range(k.a[0]):
                    I.copy_obj(st, tm.el(a, c(i)), tm.padd(x, c(i)) if i else x, et, n, fr)
            return
    st.store[tm.el(a, "$size")] = tm.settype(I.fresh(n, fr, "size"), U64)


@ctor("std::basic_string", "std::basic_string_view")
def str_ctor(I, n, a, f, args, st, fr):
    xs = [x for x in n.c if x is not None]
    I.kill_sub(st, a)
    if not args or I.P.tstr(f.params[0]["t"]).find("llocator") >= 0 and len(args) == 1:
        st.store[a] = I.fresh(n, fr, "str")
        st.store[tm.el(a, "$size")] = ZERO
        return
    if args[0].op == "str" and isinstance(args[0].a[0], str):
        s = args[0].a[0]
        st.store[a] = mk("strval", s)
        st.store[tm.el(a, "$size")] = c(len(s))
        if len(s) <= 64:
            for i, ch in enumerate(s):
                st.store[tm.el(a, c(i))] = c(ord(ch))
        return
    t0 = I.P.ty(I.P.deref_type(xs[0].t))
    if t0["k"] == "rec" and t0["key"] in ("std::basic_string", "std::basic_string_view") and (len(args) == 1 or f.get("sp") in ("copy", "move")):
        I.copy_obj(st, a, args[0], xs[0].t)
        return
    st.store[a] = I.fresh(n, fr, "str")
    st.store[tm.el(a, "$size")] = tm.settype(I.fresh(n, fr, "strsize"), U64)


@model("std::basic_string::operator=", "std::basic_string::assign")
def str_assign(I, n, f, this, args, argn, on, st, fr):
    if len(args) != 1:
        return NotImplemented
    if args[0].op == "str" and isinstance(args[0].a[0], str):
        if not I.quiet:
            I.H.on_store(I, st, this, args[0], n, fr)
        I.kill_sub(st, this)
        s = args[0].a[0]
        st.store[this] = mk("strval", s)
        st.store[tm.el(this, "$size")] = c(len(s))
        if len(s) <= 64:
            for i, ch in enumerate(s):
                st.store[tm.el(this, c(i))] = c(ord(ch))
        return this
    if I.P.ty(I.P.deref_type(argn[0].t)).get("key") == "std::basic_string":
        I.copy_obj(st, this, args[0], argn[0].t, n, fr)
        return this
    return NotImplemented


@model("tolower", "std::tolower", "toupper", "std::toupper")
def m_lower(I, n, f, this, args, argn, on, st, fr):
    v = arg_val(I, st, args[0], f, 0)
    while v.op == "cast":
        v = v.a[1]
    if isc(v):
        return c(ord((chr(v.a[0] & 255).lower if f.n == "tolower" else chr(v.a[0] & 255).upper)()[0]))
    return tm.settype(tm.call(f.n, v), I.tc(f.ret))


@ctor("std::span")
def span_ctor(I, n, a, f, args, st, fr):
    xs = [x for x in n.c if x is not None]
    I.kill_sub(st, a)
    st.store[a] = I.fresh(n, fr, "span")
    if not args:
        st.store[tm.el(a, "$size")] = ZERO
        st.store[tm.el(a, "$ptr")] = NULL
        return
    t0 = I.P.ty(I.P.deref_type(xs[0].t))
    if len(args) == 1:
        if t0["k"] == "rec" and t0["key"] == "std::span":
            st.store[tm.el(a, "$size")] = I.load(st, tm.el(args[0], "$size"), U64)
            st.store[tm.el(a, "$ptr")] = I.load(st, tm.el(args[0], "$ptr"), PT)
            return
        st.store[tm.el(a, "$size")] = size_of(I, st, args[0], xs[0].t)
        st.store[tm.el(a, "$ptr")] = tm.el(args[0], ZERO)
        return
    p = ptr_value(I, st, args[0], xs[0]) if not I.is_val(xs[0].t) else args[0]
    st.store[tm.el(a, "$ptr")] = p
    if I.P.ty(I.P.deref_type(xs[1].t))["k"] == "int":
        st.store[tm.el(a, "$size")] = tm.settype(args[1], U64)
    else:
        y = ptr_value(I, st, args[1], xs[1]) if not I.is_val(xs[1].t) else args[1]
        sp = tm._elsplit(y, p)
        st.store[tm.el(a, "$size")] = tm.sub(U64, sp[0], sp[1]) if sp else I.fresh(n, fr, "size")


@model("std::span::subspan", "std::span::first")
def span_sub(I, n, f, this, args, argn, on, st, fr):
    a = I.tmp(n, fr)
    I.kill_sub(st, a)
    st.store[a] = I.fresh(n, fr)
    p = I.load(st, tm.el(this, "$ptr"), PT)
    s = seq_size(I, st, this, on)
    if f.n == "first":
        st.store[tm.el(a, "$ptr")] = p
        st.store[tm.el(a, "$size")] = args[0]
    else:
        st.store[tm.el(a, "$ptr")] = tm.padd(p, args[0])
        if len(args) > 1 and not (isc(args[1]) and args[1].a[0] in (-1, 2 ** 64 - 1)):
            st.store[tm.el(a, "$size")] = args[1]
        else:
            st.store[tm.el(a, "$size")] = tm.sub(U64, s, args[0])
    return a


@model("std::array::fill")
def arr_fill(I, n, f, this, args, argn, on, st, fr):
    t = on.t
    if I.P.ty(I.P.deref_type(t))["k"] == "ptr":
        t = I.P.ty(I.P.deref_type(t))["p"]
    N, et = I.arr_n(t)
    if N > 64 or not isinstance(et, int):
        return NotImplemented
    v = I.load(st, args[0], I.tc(et)) if I.is_val(et) else None
    for i in range(N):
        if v is not None:
            I.store(st, tm.el(this, c(i)), v, n, fr)
        else:
            I.copy_obj(st, tm.el(this, c(i)), args[0], et, n, fr)
    return None


# iterators
@model("__gnu_cxx::__normal_iterator::operator*", "__gnu_cxx::__normal_iterator::operator->")
def it_deref(I, n, f, this, args, argn, on, st, fr):
    v = I.load(st, this, PT)
    if not I.quiet:
        I.H.on_deref(I, st, v, n, fr, "it")
    return v


@model("__gnu_cxx::__normal_iterator::operator++", "__gnu_cxx::__normal_iterator::operator--")
def it_inc(I, n, f, this, args, argn, on, st, fr):
    v = I.load(st, this, PT)
    I.store(st, this, tm.padd(v, c(1 if "++" in f.n else -1)), n, fr)
    if f.params:
        return I.rec_result(n, st, fr, v)
    return this


@model("__gnu_cxx::__normal_iterator::operator+", "__gnu_cxx::__normal_iterator::operator-", "std::next", "std::prev")
def it_add(I, n, f, this, args, argn, on, st, fr):
    if this is None:
        v, k = I.load(st, args[0], PT) if not I.is_val(argn[0].t) else args[0], args[1] if len(args) > 1 else c(1)
        return scalar_result(I, n, f, st, fr, tm.padd(v, k, -1 if f.n == "prev" else 1))
    v = I.load(st, this, PT)
    return I.rec_result(n, st, fr, tm.padd(v, args[0], -1 if f.n.endswith("-") else 1))


@model("__gnu_cxx::__normal_iterator::operator+=", "__gnu_cxx::__normal_iterator::operator-=")
def it_addeq(I, n, f, this, args, argn, on, st, fr):
    I.store(st, this, tm.padd(I.load(st, this, PT), args[0], -1 if "-" in f.n else 1), n, fr)
    return this


@ctor("__gnu_cxx::__normal_iterator")
def it_ctor(I, n, a, f, args, st, fr):
    I.store(st, a, I.load(st, args[0], PT) if args else mk("undef", 0, 0))


@model("__gnu_cxx::__normal_iterator::base")
def it_base(I, n, f, this, args, argn, on, st, fr):
    return scalar_result(I, n, f, st, fr, I.load(st, this, PT))


@model("std::atomic::operator=", "std::atomic::store", "std::__atomic_base::operator=", "std::__atomic_base::store")
def at_store(I, n, f, this, args, argn, on, st, fr):
    if not args or not I.is_val(argn[0].t):
        return NotImplemented
    I.store(st, this, args[0], n, fr)
    return args[0] if f.n != "store" else None


@model("std::atomic::(conv)", "std::atomic::load", "std::__atomic_base::(conv)", "std::__atomic_base::load")
def at_load(I, n, f, this, args, argn, on, st, fr):
    return I.load(st, this, I.tc(f.ret)) if I.is_val(f.ret) else NotImplemented


# ---- maps -------------------------------------------------------------------------------------
MAPS = ["std::unordered_map", "std::map", "std::unordered_set", "std::set"]


def map_has(I, st, this, k):
    """(contained?, key under which its value is kept) of the map at this, when paths are followed one by one."""
    m = I.load(st, this)
    while True:
        if m.op not in ("mapput", "maperase", "mapempty"):
            return I.decide(st, tm.settype(mk("contains", m, k), BT)), k
        if m.op == "mapempty":
            return False, k
        e = m.a[1] is k or I.decide(st, str_eq(m.a[1], k))
        if e is None:
            return None, k
        if e:
            return m.op == "mapput", m.a[1]
        m = m.a[0]


@model(*[m + "::contains" for m in MAPS] + [m + "::count" for m in MAPS])
def m_contains(I, n, f, this, args, argn, on, st, fr):
    k = I.obj_value(st, args[0], argn[0].t)
    if I.split is not None:
        h, k2 = map_has(I, st, this, k)
        if h is not None:
            return tm.settype(c(int(h)), BT) if f.n == "count" else TRUE if h else FALSE
    return tm.settype(mk("contains", I.load(st, this), k), BT)


def map_iter(I, n, st, fr, this, h, k):
    return I.rec_result(n, st, fr, mk("mapit", this, k) if h else mk("mapend", this))


@model(*[m + "::find" for m in MAPS])
def m_find(I, n, f, this, args, argn, on, st, fr):
    m, k = I.load(st, this), I.obj_value(st, args[0], argn[0].t)
    if I.split is not None:
        h, k2 = map_has(I, st, this, k)
        if h is not None:
            return map_iter(I, n, st, fr, this, h, k2)
    return I.rec_result(n, st, fr, tm.ite(mk("contains", m, k), mk("mapit", this, m, k), mk("mapend", this)))


@model(*[m + "::end" for m in MAPS] + [m + "::cend" for m in MAPS])
def m_end(I, n, f, this, args, argn, on, st, fr):
    return I.rec_result(n, st, fr, mk("mapend", this))


def map_value(I, st, this, k, vt):
    """Address of the value of key k: the second half of its entry."""
    return mk("mapval", this, k)


def map_put(I, n, st, fr, this, k, vt, new=None):
    """Makes sure k has an entry: (address of its value, was it there?)."""
    h, k2 = map_has(I, st, this, k)
    if h is None:
        return None, None
    if h:
        return map_value(I, st, this, k2, vt), True
    a = map_value(I, st, this, k, vt)
    st.store[this] = mk("mapput", I.load(st, this), k)
    I.kill_sub(st, a)
    if I.kind(vt) in ("sptr",) or I.is_val(I.P.deref_type(vt)):
        st.store[a] = ZERO
    else:
        st.store[a] = mk("mapnew", this, k)
    return a, False


def _mapcmp(I, n, f, this, args, argn, on, st, fr):
    x, y = I.load(st, args[0]), I.load(st, args[1])

    def cmp(p, q):
        if p.op == "ite":
            return tm.ite(p.a[0], cmp(p.a[1], q), cmp(p.a[2], q))
        if q.op == "ite":
            return cmp(q, p)
        if p is q:
            return TRUE
        if {p.op, q.op} == {"mapit", "mapend"}:
            return FALSE
        return mk("eq", None, p, q) if p.u < q.u else mk("eq", None, q, p)
    r = cmp(x, y)
    op = n.get("op") or "=="
    return r if op == "==" else tm.not_(r)


MODELS["std::__detail::operator=="] = (_mapcmp, False)
MODELS["std::__detail::operator!="] = (_mapcmp, False)


@model("std::__detail::_Node_iterator::operator->", "std::__detail::_Node_iterator::operator*",
       "std::__detail::_Node_const_iterator::operator->", "std::__detail::_Node_const_iterator::operator*",
       "std::_Rb_tree_iterator::operator->", "std::_Rb_tree_iterator::operator*")
def m_deref(I, n, f, this, args, argn, on, st, fr):
    v = I.load(st, this)
    if v.op == "mapit" and len(v.a) == 2:
        return mk("mapent", *v.a)
    if not I.quiet:
        I.H.on_deref(I, st, v, n, fr, "mapit")
    return mk("mapel", v)


@model(*[m + "::operator[]" for m in MAPS])
def m_index(I, n, f, this, args, argn, on, st, fr):
    k = I.obj_value(st, args[0], argn[0].t)
    if not I.quiet:
        I.H.on_store(I, st, this, k, n, fr)
    if I.split is not None:
        r, h = map_put(I, n, st, fr, this, k, f.ret)
        if r is not None:
            return r
    st.store[this] = mk("mapput", I.load(st, this), k)
    return mk("mapval", this, k)


@model(*[m + "::insert_or_assign" for m in MAPS] + [m + "::try_emplace" for m in MAPS] + [m + "::emplace" for m in MAPS])
def m_emplace(I, n, f, this, args, argn, on, st, fr):
    if I.split is None or len(args) != 2:
        return NotImplemented
    k = I.obj_value(st, args[0], argn[0].t)
    vt = I.P.deref_type(argn[1].t)
    r, h = map_put(I, n, st, fr, this, k, vt)
    if r is None:
        return NotImplemented
    if not h or f.n == "insert_or_assign":
        if I.is_val(vt):
            I.store(st, r, args[1], n, fr)
        else:
            I.copy_obj(st, r, args[1], vt, n, fr)
    return I.unknown(n, st, fr)


@model(*[m + "::at" for m in MAPS])
def m_at(I, n, f, this, args, argn, on, st, fr):
    k = I.obj_value(st, args[0], argn[0].t)
    if I.split is not None:
        h, k2 = map_has(I, st, this, k)
        if h is not None:
            throw_unless(I, TRUE if h else FALSE, n, st, fr)
            return map_value(I, st, this, k2, f.ret)
    throw_unless(I, mk("contains", I.load(st, this), k), n, st, fr)
    return mk("mapval", this, k)


@model(*[m + "::erase" for m in MAPS])
def m_erase(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_store(I, st, this, ZERO, n, fr)
    k = I.obj_value(st, args[0], argn[0].t) if args else ZERO
    if I.split is not None and k.op == "mapit":
        k = k.a[-1]
    st.store[this] = mk("maperase", I.load(st, this), k)
    return I.unknown(n, st, fr)


# ---- scalar functions -------------------------------------------------------------------------
UN = {"isfinite": BT, "isnan": BT, "isinf": BT, "sqrt": FT, "sin": FT, "cos": FT, "tan": FT, "asin": FT, "acos": FT,
      "atan": FT, "exp": FT, "log": FT, "log10": FT, "log2": FT, "floor": FT, "ceil": FT, "round": FT, "cbrt": FT,
      "sinh": FT, "cosh": FT, "tanh": FT, "signbit": BT, "lround": I64, "trunc": FT, "radians": FT, "degrees": FT}
BI = {"pow": FT, "atan2": FT, "fmod": FT, "copysign": FT, "hypot": FT, "ldexp": FT, "fmax": FT, "fmin": FT}


def mathfn(name, key):
    @model(key)
    def h(I, n, f, this, args, argn, on, st, fr, name=name):
        if argn and I.kind(argn[0].t) in ("vec", "mat"):
            return vec_fn(I, n, f, this, args, argn, on, st, fr, name)
        vals = [arg_val(I, st, v, f, i) for i, v in enumerate(args)]
        if name == "isfinite" and isc(vals[0]):
            return TRUE
        if name in ("isnan", "isinf") and isc(vals[0]):
            return FALSE
        if name in ("isnan",) and vals[0].op == "nan":
            return TRUE
        if name in ("isnan", "isinf", "isfinite") and vals[0].op == "cast":
            return TRUE if name == "isfinite" else FALSE
        if name == "sqrt" and isc(vals[0]) and vals[0].a[0] >= 0:
            return c(float(vals[0].a[0]) ** 0.5)
        r = tm.call(name, *vals)
        return tm.settype(r, UN.get(name) or BI.get(name) or I.tc(f.ret))


for nm in list(UN) + list(BI):
    for pre in ("std::", "", "glm::"):
        mathfn(nm, pre + nm)
    mathfn(nm, "std::" + nm + "f")
    mathfn(nm, nm + "f")


@model("std::fma", "std::lerp", "fma", "fmaf")
def m_fma(I, n, f, this, args, argn, on, st, fr):
    x, y, z = [arg_val(I, st, v, f, i) for i, v in enumerate(args)]
    t = I.tc(f.ret)
    r = tm.add(t, x, tm.mul(t, z, tm.sub(t, y, x))) if f.n == "lerp" else tm.add(t, tm.mul(t, x, y), z)
    return tm.settype(r, t)


@model("std::abs", "abs", "fabs", "std::fabs", "glm::abs", "fabsf", "labs")
def m_abs(I, n, f, this, args, argn, on, st, fr):
    if I.kind(argn[0].t) == "vec":
        return vec_fn(I, n, f, this, args, argn, on, st, fr, "abs")
    v = arg_val(I, st, args[0], f, 0)
    if isc(v):
        return c(abs(v.a[0]))
    return tm.settype(tm.call("abs", v), I.tc(f.ret))


def mm(ty, name, x, y):
    if isc(x) and isc(y):
        return c(max(x.a[0], y.a[0]) if name == "max" else min(x.a[0], y.a[0]))
    if x is y:
        return x
    return tm.settype(tm.call(name, x, y), ty)


@model("std::max", "std::min", "glm::max", "glm::min")
def m_max(I, n, f, this, args, argn, on, st, fr):
    if I.kind(argn[0].t) == "vec":
        return vec_fn(I, n, f, this, args, argn, on, st, fr, f.n)
    t0 = I.P.ty(I.P.deref_type(argn[0].t))
    if t0["k"] == "rec" and t0["key"] == "std::initializer_list":
        a = args[0]
        s = I.load(st, tm.el(a, "$size"), U64)
        if isc(s) and 0 < s.a[0] <= 8:
            ty = I.tc(f.ret)
            r = None
            for i in range(s.a[0]):
                x = I.load(st, tm.el(a, c(i)), ty)
                r = x if r is None else mm(ty, f.n, r, x)
            return r
        return NotImplemented
    if not I.is_val(argn[0].t):
        return NotImplemented
    if len(args) > 2:
        return NotImplemented
    x, y = arg_val(I, st, args[0], f, 0), arg_val(I, st, args[1], f, 1)
    ty = I.tc(f.ret)
    return scalar_result(I, n, f, st, fr, mm(ty, f.n, x, y))


@model("std::clamp", "glm::clamp")
def m_clamp(I, n, f, this, args, argn, on, st, fr):
    if not I.is_val(argn[0].t):
        if I.kind(argn[0].t) == "vec":
            return vec_fn(I, n, f, this, args, argn, on, st, fr, "clamp")
        return NotImplemented
    x, lo, hi = [arg_val(I, st, args[i], f, i) for i in range(3)]
    ty = I.tc(f.ret)
    if ty and ty[0] == "f":
        # clamp keeps NaN: clamp(v,lo,hi) = v<lo ? lo : hi<v ? hi : v
        v = tm.call("clamp", x, lo, hi)
        tm.settype(v, ty)
    else:
        v = mm(ty, "min", mm(ty, "max", x, lo), hi)
    return scalar_result(I, n, f, st, fr, v)


@model("std::forward", "std::as_const", "std::move")
def m_fwd(I, n, f, this, args, argn, on, st, fr):
    return args[0]


@model("std::addressof")
def m_addr(I, n, f, this, args, argn, on, st, fr):
    return args[0]


@model("std::swap")
def m_swap(I, n, f, this, args, argn, on, st, fr):
    t = argn[0].t
    a = I.tmp(n, fr, "swap")
    I.kill_sub(st, a)
    st.store.pop(a, None)
    I.copy_obj(st, a, args[0], t)
    I.copy_obj(st, args[0], args[1], t, n, fr)
    I.copy_obj(st, args[1], a, t, n, fr)
    return None


@model("std::exchange")
def m_exchange(I, n, f, this, args, argn, on, st, fr):
    t = argn[0].t
    v = I.load(st, args[0], I.tc(t))
    y = arg_val(I, st, args[1], f, 1)
    I.store(st, args[0], y, n, fr)
    if I.is_val(t):
        return v
    return I.rec_result(n, st, fr, v)


@model("memcpy", "memmove", "std::memcpy", "std::memmove")
def m_memcpy(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_memcopy(I, st, args[0], args[1], args[2], n, fr)
    ts = []
    for x in argn[:2]:
        while x.k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXStaticCastExpr", "ParenExpr") and I.P.ty(x.t).get("p", -1) >= 0 and I.P.ty(I.P.ty(x.t)["p"])["s"] in ("void", "const void"):
            x = x.c[0]
        t = I.P.ty(x.t)
        ts.append(t["p"] if t["k"] == "ptr" else -1)
    if isc(args[2]) and args[2].a[0] in (4, 8) and all(t >= 0 and I.is_val(t) for t in ts):
        d, s = I.tc(ts[0]), I.tc(ts[1])
        v = bits_of(I.load(st, args[1], s), s, d, 8 * args[2].a[0])
        if v is not None:
            I.store(st, args[0], v, n, fr)
            return args[0]
    I.clobber(st, args[0], n, fr)
    return args[0]


def bits_of(v, s, d, w):
    """The value of type d with the representation of v."""
    if s is None or d is None:
        return None
    if s[0] == d[0]:
        return v if s[0] == "f" or s[1:] == d[1:] else mk("cast", d, v)
    if s[0] == "f" and d[0] in "iu":
        return tm.settype(tm.call("verif_bits%d" % w, v), d)
    if s[0] in "iu" and d[0] == "f":
        return tm.settype(tm.call("verif_float%d" % w, v), FT)
    return None


@model("std::bit_cast")
def m_bit_cast(I, n, f, this, args, argn, on, st, fr):
    pt = f.params[0]["t"]
    if not (I.is_val(f.ret) and I.is_val(I.P.deref_type(pt))):
        return I.unknown(n, st, fr)
    w = I.P.ty(f.ret).get("w", 32)
    v = bits_of(arg_val(I, st, args[0], f, 0), I.tc(pt), I.tc(f.ret), w)
    return v if v is not None else I.unknown(n, st, fr)


@model("memset", "std::memset")
def m_memset(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_memcopy(I, st, args[0], None, args[2], n, fr)
    I.clobber(st, args[0], n, fr)
    return args[0]


def _buf(a):
    return a.a[0] if a.op in ("el", "padd") else a


@model("std::copy", "std::transform", "std::copy_if", "std::copy_n")
def m_copy(I, n, f, this, args, argn, on, st, fr):
    out = args[2] if f.n != "transform" or True else None
    for x in args:
        if x is not None:
            I.escape_lambda(x, n, st, fr)
    p = ptr_value(I, st, args[2], argn[2])
    if f.n in ("copy", "copy_n"):
        x = ptr_value(I, st, args[0], argn[0])
        if f.n == "copy":
            sp = tm._elsplit(ptr_value(I, st, args[1], argn[1]), x)
            k = tm.sub(U64, sp[0], sp[1]) if sp else None
        else:
            k = args[1]
        et = I.P.ty(I.P.deref_type(argn[0].t))
        et = et["p"] if et["k"] == "ptr" else I.elem_t(argn[0].t)
        ot = I.P.ty(I.P.deref_type(argn[2].t))
        if k is not None and isc(k) and 0 <= k.a[0] <= 64 and et is not None and et >= 0 and p.op in ("el", "padd", "fld", "var") and I.is_val(et) and (
                ot["k"] != "ptr" or I.tc(ot["p"]) == I.tc(et)):
            tc = I.tc(et)
            for i in range(k.a[0]):
                I.store(st, tm.padd(p, c(i)), I.load(st, tm.padd(x, c(i)), tc), n, fr)
            return tm.padd(p, k) if ot["k"] == "ptr" else I.unknown(n, st, fr)
    if p.op in ("el", "padd"):
        I.clobber(st, p, n, fr)
    elif args[2] is not None:
        I.clobber(st, args[2], n, fr)
    return I.unknown(n, st, fr)


@model("std::fill", "std::fill_n", "std::sort", "std::stable_sort", "std::reverse", "std::iota", "std::remove_if", "std::generate")
def m_range(I, n, f, this, args, argn, on, st, fr):
    for x in args:
        if x is not None:
            I.escape_lambda(x, n, st, fr)
    p = ptr_value(I, st, args[0], argn[0])
    if f.n == "fill" and len(args) == 3:
        sp = tm._elsplit(ptr_value(I, st, args[1], argn[1]), p)
        k = sp and tm.sub(U64, sp[0], sp[1])
        et = I.P.deref_type(argn[2].t)
        if k is not None and isc(k) and 0 <= k.a[0] <= 4096 and p.op in ("el", "padd") and I.is_val(et):
            v = args[2] if I.is_val(argn[2].t) and args[2] is not None and args[2].op == "c" else I.load(st, args[2], I.tc(et))
            for i in range(k.a[0]):
                I.store(st, tm.padd(p, tm.c(i)) if i else p, v)
            return None
        if k is not None and isc(k) and 0 <= k.a[0] <= 4096 and p.op in ("el", "padd") and args[2] is not None and args[2].op in ("loc", "fld", "el", "par", "ind", "tmp") and not I.is_val(et):
            for i in range(k.a[0]):
                I.copy_obj(st, tm.padd(p, tm.c(i)) if i else p, args[2], et, n, fr)
            return None
    if f.n == "sort" and len(args) == 2 and p.op in ("el", "padd"):
        sp = tm._elsplit(ptr_value(I, st, args[1], argn[1]), p)
        k = sp and tm.sub(U64, sp[0], sp[1])
        et = I.elem_t(argn[0].t)
        et = I.P.ty(et)["p"] if et >= 0 and I.P.ty(et)["k"] == "ptr" else et
        if k is not None and isc(k) and 0 <= k.a[0] <= 8 and et >= 0 and I.is_val(et) and I.tc(et)[0] in "fiu":
            ty = I.tc(et)
            at = [tm.padd(p, tm.c(i)) if i else p for i in range(k.a[0])]
            v = [I.load(st, a, ty) for a in at]
            for i in range(len(v)):
                for j in range(len(v) - 1 - i):
                    v[j], v[j + 1] = mm(ty, "min", v[j], v[j + 1]), mm(ty, "max", v[j], v[j + 1])
            for a, x in zip(at, v):
                I.store(st, a, x)
            return None
    if p.op in ("el", "padd"):
        I.clobber(st, p, n, fr)
    if I.P.ty(f.ret)["k"] == "void":
        return None
    if not I.is_val(f.ret) and p.op in ("el", "padd"):
        return I.rec_result(n, st, fr, mk(p.op, p.a[0], tm.settype(I.fresh(n, fr, "pos"), I64)))
    return I.unknown(n, st, fr)


@ctor("std::pair")
def pair_ctor(I, n, a, f, args, st, fr):
    r = I.P.records.get(f.cls)
    xs = [x for x in n.c if x is not None]
    if r is None or len(args) != 2 or len(r.get("fields", ())) != 2:
        st.store[a] = I.fresh(n, fr)
        return
    for v, nd, fd, i in zip(args, xs, r["fields"], (0, 1)):
        da = tm.fld(a, fd["d"])
        if I.is_val(fd["t"]):
            I.store(st, da, arg_val(I, st, v, f, i))
        else:
            I.copy_obj(st, da, v, fd["t"])


@ctor("std::tuple")
def tuple_ctor(I, n, a, f, args, st, fr):
    I.kill_sub(st, a)
    xs = [x for x in n.c if x is not None]
    if not args or len(args) != len(xs):
        st.store[a] = I.fresh(n, fr)
        return
    if len(args) == 1 and I.P.ty(I.P.deref_type(xs[0].t)).get("key") == "std::tuple":
        I.copy_obj(st, a, args[0], xs[0].t)
        return
    st.store.pop(a, None)
    for i, (v, nd) in enumerate(zip(args, xs)):
        da = tm.el(a, "$%d" % i)
        if I.is_val(nd.t):
            I.store(st, da, arg_val(I, st, v, f, i))
        else:
            I.copy_obj(st, da, v, nd.t)


# ---- GLM --------------------------------------------------------------------------------------
def comps(I, st, v, node_t):
    """Component values of a vector or scalar argument."""
    if I.kind(node_t) == "vec":
        return [I.load(st, tm.el(v, c(i)), FT) for i in range(I.vec_n(node_t))]
    return None


def vec_result(I, n, st, fr, vals, tag="glm"):
    a = I.tmp(n, fr, tag)
    I.kill_sub(st, a)
    st.store.pop(a, None)
    for i, v in enumerate(vals):
        st.store[tm.el(a, c(i))] = v
    return a


def vec_fn(I, n, f, this, args, argn, on, st, fr, name):
    cs = []
    N = None
    for i, (v, nd) in enumerate(zip(args, argn)):
        x = comps(I, st, v, nd.t)
        if x is not None:
            N = len(x)
        cs.append(x if x is not None else arg_val(I, st, v, f, i))
    if N is None:
        return NotImplemented
    rows = [[x[i] if isinstance(x, list) else x for x in cs] for i in range(N)]
    vals = [mm(FT, name, *r) if name in ("min", "max") else tm.settype(tm.call(name, *r), FT) for r in rows]
    return vec_result(I, n, st, fr, vals)


@ctor("glm::vec")
def vec_ctor(I, n, a, f, args, st, fr):
    N = I.vec_n(n.t)
    xs = [x for x in n.c if x is not None]
    out = []
    if not args:
        out = [ZERO] * N
    for i, (v, nd) in enumerate(zip(args, xs)):
        x = comps(I, st, v, nd.t)
        if x is None:
            pt = I.P.ty(f.params[i]["t"])
            x = [I.load(st, v, FT) if pt["k"] == "ref" else v]
        out += x
    if len(out) == 1:
        out = out * N
    I.kill_sub(st, a)
    st.store.pop(a, None)
    for i, v in enumerate(out[:N]):
        I.store(st, tm.el(a, c(i)), v)


@model("glm::vec::operator[]", "glm::mat::operator[]")
def vec_index(I, n, f, this, args, argn, on, st, fr):
    if not I.quiet:
        I.H.on_index(I, st, this, args[0], n, fr, ("glm", on))
    return tm.el(this, args[0])


@model("glm::vec::operator=")
def vec_assign(I, n, f, this, args, argn, on, st, fr):
    x = comps(I, st, args[0], argn[0].t)
    if x is None:
        return NotImplemented
    if not I.quiet:
        I.H.on_store(I, st, this, args[0], n, fr)
    I.kill_sub(st, this)
    st.store.pop(this, None)
    for i, v in enumerate(x):
        I.store(st, tm.el(this, c(i)), v, None, fr)
    return this


@model("glm::vec::operator+=", "glm::vec::operator-=", "glm::vec::operator*=", "glm::vec::operator/=")
def vec_opassign(I, n, f, this, args, argn, on, st, fr):
    op = f.n.replace("operator", "")[0]
    N = I.vec_n(on.t) if I.kind(on.t) == "vec" else None
    if N is None:
        return NotImplemented
    y = comps(I, st, args[0], argn[0].t)
    if y is None:
        y = [arg_val(I, st, args[0], f, 0)] * N
    if not I.quiet:
        I.H.on_store(I, st, this, args[0], n, fr)
    for i in range(N):
        a = tm.el(this, c(i))
        I.store(st, a, I.arith(op, FT, I.load(st, a, FT), y[i]), None, fr)
    return this


def mat_vals(I, st, a, t):
    C, R = I.mat_cr(t)
    return [[I.load(st, tm.el(tm.el(a, c(i)), c(j)), FT) for j in range(R)] for i in range(C)]


def mat_result(I, n, st, fr, M):
    a = I.tmp(n, fr, "mat")
    I.kill_sub(st, a)
    st.store.pop(a, None)
    for i, col in enumerate(M):
        for j, v in enumerate(col):
            st.store[tm.el(tm.el(a, c(i)), c(j))] = v
    return a


def fsum(vals):
    r = None
    for v in vals:
        r = v if r is None else tm.settype(tm.add(FT, r, v), FT)
    return r


def fmul(x, y):
    return tm.settype(tm.mul(FT, x, y), FT)


@model("glm::operator+", "glm::operator-", "glm::operator*", "glm::operator/")
def glm_op(I, n, f, this, args, argn, on, st, fr):
    op = f.n.replace("operator", "")
    ks = [I.kind(x.t) for x in argn]
    if len(args) == 1:
        x = comps(I, st, args[0], argn[0].t)
        if x is None:
            return NotImplemented
        return vec_result(I, n, st, fr, [tm.neg(FT, v) if op == "-" else v for v in x])
    if "mat" in ks and op == "*":
        A = mat_vals(I, st, args[0], argn[0].t) if ks[0] == "mat" else None
        B = mat_vals(I, st, args[1], argn[1].t) if ks[1] == "mat" else None
        if A and B:
            R = len(A[0])
            return mat_result(I, n, st, fr, [[fsum(fmul(A[k][j], B[i][k]) for k in range(len(A))) for j in range(R)] for i in range(len(B))])
        if A and ks[1] == "vec":
            v = comps(I, st, args[1], argn[1].t)
            return vec_result(I, n, st, fr, [fsum(fmul(A[k][j], v[k]) for k in range(len(A))) for j in range(len(A[0]))])
        if B and ks[0] == "vec":
            v = comps(I, st, args[0], argn[0].t)
            return vec_result(I, n, st, fr, [fsum(fmul(v[j], B[i][j]) for j in range(len(v))) for i in range(len(B))])
    if "mat" in ks:
        ia = 0 if ks[0] == "mat" else 1
        A = mat_vals(I, st, args[ia], argn[ia].t)
        if ks[1 - ia] == "mat":
            B = mat_vals(I, st, args[1], argn[1].t)
            A = mat_vals(I, st, args[0], argn[0].t)
            return mat_result(I, n, st, fr, [[I.arith(op, FT, A[i][j], B[i][j]) for j in range(len(A[0]))] for i in range(len(A))])
        s = arg_val(I, st, args[1 - ia], f, 1 - ia)
        return mat_result(I, n, st, fr, [[I.arith(op, FT, x, s) if ia == 0 else I.arith(op, FT, s, x) for x in col] for col in A])
    x = comps(I, st, args[0], argn[0].t)
    y = comps(I, st, args[1], argn[1].t)
    if x is None and y is None:
        return NotImplemented
    q = [I.P.ty(I.P.deref_type(z.t)).get("key") == "glm::qua" for z in argn]
    if any(q) and op in "*/":
        if all(q) and op == "*":
            return vec_result(I, n, st, fr, qmul(x, y))
        if x is not None and y is not None:
            return NotImplemented
    N = len(x or y)
    if x is None:
        x = [arg_val(I, st, args[0], f, 0)] * N
    if y is None:
        y = [arg_val(I, st, args[1], f, 1)] * N
    return vec_result(I, n, st, fr, [I.arith(op, FT, p, q) for p, q in zip(x, y)])


def qmul(p, q):
    """Hamilton product of (x, y, z, w) component lists."""
    ad = lambda *v: fsum(v)
    ng = lambda v: tm.settype(tm.neg(FT, v), FT)
    px, py, pz, pw = p
    qx, qy, qz, qw = q
    return [ad(fmul(pw, qx), fmul(px, qw), fmul(py, qz), ng(fmul(pz, qy))),
            ad(fmul(pw, qy), fmul(py, qw), fmul(pz, qx), ng(fmul(px, qz))),
            ad(fmul(pw, qz), fmul(pz, qw), fmul(px, qy), ng(fmul(py, qx))),
            ad(fmul(pw, qw), ng(fmul(px, qx)), ng(fmul(py, qy)), ng(fmul(pz, qz)))]


@ctor("glm::qua")
def qua_ctor(I, n, a, f, args, st, fr):
    xs = [x for x in n.c if x is not None]
    out = None
    if len(args) == 4:
        w, x, y, z = [arg_val(I, st, v, f, i) for i, v in enumerate(args)]
        out = [x, y, z, w]
    elif len(args) == 1 and I.kind(xs[0].t) == "vec" and I.vec_n(xs[0].t) == 4:
        out = comps(I, st, args[0], xs[0].t)
    I.kill_sub(st, a)
    st.store.pop(a, None)
    if out is None:
        st.store[a] = I.fresh(n, fr)
        return
    for i, v in enumerate(out):
        I.store(st, tm.el(a, c(i)), v)


@model("glm::qua::operator=")
def qua_assign(I, n, f, this, args, argn, on, st, fr):
    x = comps(I, st, args[0], argn[0].t)
    if x is None:
        return NotImplemented
    I.kill_sub(st, this)
    st.store.pop(this, None)
    for i, v in enumerate(x):
        I.store(st, tm.el(this, c(i)), v, None, fr)
    return this


@model("glm::mat3_cast", "glm::toMat3")
def glm_mat3_cast(I, n, f, this, args, argn, on, st, fr):
    x, y, z, w = comps(I, st, args[0], argn[0].t)
    s = lambda p, q: I.arith("-", FT, p, q)
    ad = lambda p, q: I.arith("+", FT, p, q)
    two = c(2)
    m = [[s(c(1), fmul(two, ad(fmul(y, y), fmul(z, z)))), fmul(two, ad(fmul(x, y), fmul(w, z))), fmul(two, s(fmul(x, z), fmul(w, y)))],
         [fmul(two, s(fmul(x, y), fmul(w, z))), s(c(1), fmul(two, ad(fmul(x, x), fmul(z, z)))), fmul(two, ad(fmul(y, z), fmul(w, x)))],
         [fmul(two, ad(fmul(x, z), fmul(w, y))), fmul(two, s(fmul(y, z), fmul(w, x))), s(c(1), fmul(two, ad(fmul(x, x), fmul(y, y))))]]
    return mat_result(I, n, st, fr, m)


@model("glm::quat_cast", "glm::toQuat")
def glm_quat_cast(I, n, f, this, args, argn, on, st, fr):
    A = mat_vals(I, st, args[0], argn[0].t)
    fl = [x for col in A for x in col]
    return vec_result(I, n, st, fr, [tm.settype(tm.call("quat_cast." + k, *fl), FT) for k in "xyzw"])


@model("glm::conjugate", "glm::inverse")
def glm_qinv(I, n, f, this, args, argn, on, st, fr):
    if I.P.ty(I.P.deref_type(argn[0].t)).get("key") == "glm::qua":
        x, y, z, w = comps(I, st, args[0], argn[0].t)
        r = [tm.neg(FT, x), tm.neg(FT, y), tm.neg(FT, z), w]
        if f.n == "inverse":
            d = vdot([x, y, z, w], [x, y, z, w])
            r = [I.arith("/", FT, v, d) for v in r]
        return vec_result(I, n, st, fr, r)
    if I.kind(argn[0].t) == "mat":
        A = mat_vals(I, st, args[0], argn[0].t)
        if len(A) != 3 or len(A[0]) != 3:
            return NotImplemented
        s = lambda p, q: I.arith("-", FT, p, q)
        co = [[None] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(3):
                a, b = [k for k in range(3) if k != i], [k for k in range(3) if k != j]
                m = s(fmul(A[a[0]][b[0]], A[a[1]][b[1]]), fmul(A[a[0]][b[1]], A[a[1]][b[0]]))
                co[i][j] = m if (i + j) % 2 == 0 else tm.settype(tm.neg(FT, m), FT)
        det = fsum(fmul(A[0][j], co[0][j]) for j in range(3))
        return mat_result(I, n, st, fr, [[I.arith("/", FT, co[j][i], det) for j in range(3)] for i in range(3)])
    return NotImplemented


@model("glm::operator==", "glm::operator!=")
def glm_eq(I, n, f, this, args, argn, on, st, fr):
    x, y = comps(I, st, args[0], argn[0].t), comps(I, st, args[1], argn[1].t)
    if x is None or y is None:
        return NotImplemented
    r = TRUE
    for p, q in zip(x, y):
        r = tm.and_(r, tm.eq(FT, p, q))
    return r if f.n.endswith("==") else tm.not_(r)


def vdot(x, y):
    return fsum(fmul(p, q) for p, q in zip(x, y))


@model("glm::dot")
def glm_dot(I, n, f, this, args, argn, on, st, fr):
    x, y = comps(I, st, args[0], argn[0].t), comps(I, st, args[1], argn[1].t)
    if x is None:
        return NotImplemented
    return vdot(x, y)


@model("glm::length", "glm::distance")
def glm_length(I, n, f, this, args, argn, on, st, fr):
    x = comps(I, st, args[0], argn[0].t)
    if x is None:
        return NotImplemented
    if f.n == "distance":
        y = comps(I, st, args[1], argn[1].t)
        x = [I.arith("-", FT, p, q) for p, q in zip(x, y)]
    return tm.settype(tm.call("sqrt", vdot(x, x)), FT)


@model("glm::normalize")
def glm_norm(I, n, f, this, args, argn, on, st, fr):
    x = comps(I, st, args[0], argn[0].t)
    if x is None:
        return NotImplemented
    l = tm.settype(tm.call("sqrt", vdot(x, x)), FT)
    return vec_result(I, n, st, fr, [I.arith("/", FT, p, l) for p in x])


@model("glm::cross")
def glm_cross(I, n, f, this, args, argn, on, st, fr):
    x, y = comps(I, st, args[0], argn[0].t), comps(I, st, args[1], argn[1].t)
    if x is None or len(x) != 3:
        return NotImplemented
    s = lambda i, j: I.arith("-", FT, fmul(x[i], y[j]), fmul(x[j], y[i]))
    return vec_result(I, n, st, fr, [s(1, 2), s(2, 0), s(0, 1)])


@model("glm::reflect")
def glm_reflect(I, n, f, this, args, argn, on, st, fr):
    x, y = comps(I, st, args[0], argn[0].t), comps(I, st, args[1], argn[1].t)
    d = fmul(c(2), vdot(y, x))
    return vec_result(I, n, st, fr, [I.arith("-", FT, p, fmul(q, d)) for p, q in zip(x, y)])


@model("glm::mix")
def glm_mix(I, n, f, this, args, argn, on, st, fr):
    x, y = comps(I, st, args[0], argn[0].t), comps(I, st, args[1], argn[1].t)
    if x is None:
        return NotImplemented
    k = comps(I, st, args[2], argn[2].t) or [arg_val(I, st, args[2], f, 2)] * len(x)
    return vec_result(I, n, st, fr, [I.arith("+", FT, fmul(p, I.arith("-", FT, c(1), t)), fmul(q, t)) for p, q, t in zip(x, y, k)])


@ctor("glm::mat")
def mat_ctor(I, n, a, f, args, st, fr):
    C, R = I.mat_cr(n.t)
    xs = [x for x in n.c if x is not None]
    I.kill_sub(st, a)
    st.store.pop(a, None)
    M = None
    if not args:
        M = [[ZERO] * R for _ in range(C)]
    elif len(args) == 1 and I.kind(xs[0].t) == "mat":
        A = mat_vals(I, st, args[0], xs[0].t)
        M = [[A[i][j] if i < len(A) and j < len(A[0]) else (c(1) if i == j else ZERO) for j in range(R)] for i in range(C)]
    elif len(args) == 1 and I.is_val(xs[0].t):
        v = arg_val(I, st, args[0], f, 0)
        M = [[v if i == j else ZERO for j in range(R)] for i in range(C)]
    elif len(args) == C and all(I.kind(x.t) == "vec" for x in xs):
        M = [comps(I, st, v, x.t) for v, x in zip(args, xs)]
    elif len(args) == C * R:
        fl = [arg_val(I, st, v, f, i) for i, v in enumerate(args)]
        M = [fl[i * R:(i + 1) * R] for i in range(C)]
    if M is None:
        st.store[a] = I.fresh(n, fr)
        return
    for i in range(C):
        for j in range(R):
            I.store(st, tm.el(tm.el(a, c(i)), c(j)), M[i][j])


@model("glm::transpose")
def glm_transpose(I, n, f, this, args, argn, on, st, fr):
    A = mat_vals(I, st, args[0], argn[0].t)
    return mat_result(I, n, st, fr, [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))])


@model("glm::determinant")
def glm_det(I, n, f, this, args, argn, on, st, fr):
    A = mat_vals(I, st, args[0], argn[0].t)
    if len(A) != 3:
        return NotImplemented
    s = lambda p, q: I.arith("-", FT, p, q)
    t = [fmul(A[0][0], s(fmul(A[1][1], A[2][2]), fmul(A[2][1], A[1][2]))),
         tm.neg(FT, fmul(A[1][0], s(fmul(A[0][1], A[2][2]), fmul(A[2][1], A[0][2])))),
         fmul(A[2][0], s(fmul(A[0][1], A[1][2]), fmul(A[1][1], A[0][2])))]
    return fsum(t)


@model("glm::mat::operator=")
def mat_assign(I, n, f, this, args, argn, on, st, fr):
    if I.kind(argn[0].t) != "mat":
        return NotImplemented
    I.copy_obj(st, this, args[0], argn[0].t, n, fr)
    return this


# ---- TBB --------------------------------------------------------------------------------------
@ctor("tbb::detail::d1::blocked_range")
def br_ctor(I, n, a, f, args, st, fr):
    st.store[a] = I.fresh(n, fr)
    if len(args) >= 2:
        st.store[tm.el(a, "$lo")] = args[0]
        st.store[tm.el(a, "$hi")] = args[1]


@ctor("tbb::detail::d1::blocked_range2d")
def br2_ctor(I, n, a, f, args, st, fr):
    st.store[a] = I.fresh(n, fr)
    if len(args) >= 6:
        r0, r1, c0, c1 = args[0], args[1], args[3], args[4]
    elif len(args) == 4:
        r0, r1, c0, c1 = args
    else:
        return
    for k, v in (("$r", (r0, r1)), ("$c", (c0, c1))):
        st.store[tm.el(tm.el(a, k), "$lo")] = v[0]
        st.store[tm.el(tm.el(a, k), "$hi")] = v[1]


@model("tbb::detail::d1::blocked_range2d::rows", "tbb::detail::d1::blocked_range2d::cols")
def br_rows(I, n, f, this, args, argn, on, st, fr):
    return tm.el(this, "$r" if f.n == "rows" else "$c")


@model("tbb::detail::d1::blocked_range::begin", "tbb::detail::d1::blocked_range::end")
def br_begin(I, n, f, this, args, argn, on, st, fr):
    return I.load(st, tm.el(this, "$lo" if f.n == "begin" else "$hi"), I.tc(f.ret))


@model("tbb::detail::d1::parallel_for")
def par_for(I, n, f, this, args, argn, on, st, fr):
    lam = None
    for v in args:
        if v in I.lams:
            lam = v
    if lam is None:
        return NotImplemented
    rng = args[0]

    def mkargs(g, s):
        a = mk("tmp", n.fn.id, n.i, fr.id, "range")
        I.kill_sub(s, a)
        s.store[a] = I.fresh(n, fr, "range")
        for pre in ((), ("$r",), ("$c",)):
            src, dst = rng, a
            for k in pre:
                src, dst = tm.el(src, k), tm.el(dst, k)
            lo, hi = s.store.get(tm.el(src, "$lo")), s.store.get(tm.el(src, "$hi"))
            if lo is None:
                continue
            ty = tm.TY.get(hi) or tm.TY.get(lo) or I64
            b = tm.settype(mk("hv", n.fn.id, n.i, fr.id, "lo" + "".join(pre)), ty)
            e = tm.settype(mk("hv", n.fn.id, n.i, fr.id, "hi" + "".join(pre)), ty)
            s.store[tm.el(dst, "$lo")] = b
            s.store[tm.el(dst, "$hi")] = e
            I.assume(s, tm.le(ty, lo, b), True)
            I.assume(s, tm.le(ty, b, e), True)
            I.assume(s, tm.le(ty, e, hi), True)
        if len(g.params) and I.is_val(g.params[0]["t"]):
            ix = tm.settype(mk("hv", n.fn.id, n.i, fr.id, "ix"), I.tc(g.params[0]["t"]))
            if len(args) >= 3:
                I.assume(s, tm.le(tm.TY[ix], args[0], ix), True)
                I.assume(s, tm.lt(tm.TY[ix], ix, args[1]), True)
            return [ix]
        return [a]
    I.run_lambda_unknown(lam, n, st, fr, mkargs)
    return None


@model("std::call_once")
def call_once(I, n, f, this, args, argn, on, st, fr):
    for v in args:
        I.escape_lambda(v, n, st, fr)
    return None


def closure(I, st, lam, elems, n, fr):
    """Call a closure with the objects at the given addresses: elems is [(address, type)]."""
    node, caps, home = I.lams[lam]
    for x in node.get("lams") or []:
        g = I.P.fns.get(x)
        if g is None or g.ext or len(g.params) != len(elems) or not I.can_inline(g, fr):
            continue
        if any(I.P.tstr(I.P.deref_type(p["t"])).replace("const ", "") != I.P.tstr(I.P.deref_type(t)).replace("const ", "") and not (I.is_val(p["t"]) and I.is_val(t)) for p, (a, t) in zip(g.params, elems)):
            continue
        xs = []
        for k, (p, (a, t)) in enumerate(zip(g.params, elems)):
            if I.P.ty(p["t"])["k"] == "ref":
                xs.append(a)
            elif I.is_val(p["t"]):
                v = I.load(st, a, I.tc(t))
                xs.append(mk("cast", I.tc(p["t"]), v) if I.tc(p["t"]) != I.tc(t) else v)
            else:
                o = I.tmp(n, fr, "ca%d" % k)
                I.kill_sub(st, o)
                I.copy_obj(st, o, a, t, n, fr)
                xs.append(o)
        return True, I.invoke_env(g, home.this, xs, n, st, fr, caps, home)
    return False, None


def span_of(I, st, args, argn, limit=32):
    """Addresses and type of the elements of a range given by two iterators or a container: (addresses, type, arguments used)."""
    t0 = I.kind(argn[0].t)
    if t0 in ("seq", "arr") and not (I.P.ty(I.P.deref_type(argn[0].t))["k"] == "ptr"):
        s = seq_size(I, st, args[0], argn[0]) if t0 == "seq" else c(I.arr_n(argn[0].t)[0])
        s = I.subst(st, s)
        if not isc(s) or s.a[0] > limit:
            return None
        return [tm.el(args[0], c(i)) for i in range(s.a[0])], I.elem_t(argn[0].t) if t0 == "seq" else I.arr_n(argn[0].t)[1], 1
    if len(args) < 2:
        return None
    p = ptr_value(I, st, args[0], argn[0])
    sp = tm._elsplit(ptr_value(I, st, args[1], argn[1]), p)
    k = sp and tm.sub(U64, sp[0], sp[1])
    if k is None or not isc(k) or not 0 <= k.a[0] <= limit or p.op not in ("el", "padd"):
        return None
    et = I.P.ty(I.P.deref_type(argn[0].t))
    et = et["p"] if et["k"] == "ptr" else I.elem_t(argn[0].t)
    et = I.P.ty(et)["p"] if et >= 0 and I.P.ty(et)["k"] == "ptr" and I.kind(argn[0].t) == "iter" else et
    return ([tm.padd(p, c(i)) if i else p for i in range(k.a[0])], et, 2) if et >= 0 else None


@model("std::ranges::__any_of_fn::operator()", "std::ranges::__all_of_fn::operator()", "std::ranges::__none_of_fn::operator()", "std::ranges::__for_each_fn::operator()", "std::ranges::__count_if_fn::operator()",
       "std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::count_if", "std::for_each", "std::ranges::__find_if_fn::operator()")
def any_of(I, n, f, this, args, argn, on, st, fr):
    kind = next(k for k in ("any_of", "all_of", "none_of", "count_if", "for_each", "find_if") if k in f.key)
    sp = span_of(I, st, args, argn) if kind != "find_if" or I.split is not None else None
    if kind == "find_if":
        if sp is not None and len(args) > sp[2] and args[sp[2]] in I.lams:
            for a in sp[0]:
                done, v = closure(I, st, args[sp[2]], [(a, sp[1])], n, fr)
                if not done or v is None:
                    break
                k = I.decide(st, v)
                if k is None:
                    break
                if k:
                    return scalar_result(I, n, f, st, fr, a)
            else:
                return scalar_result(I, n, f, st, fr, ptr_value(I, st, args[1], argn[1]) if sp[2] == 2 else tm.el(args[0], c(len(sp[0]))))
        sp = None
    if sp is not None and len(args) > sp[2] and args[sp[2]] in I.lams:
        s = st.copy()
        r = TRUE if kind in ("all_of", "none_of") else FALSE if kind == "any_of" else ZERO
        for a in sp[0]:
            done, v = closure(I, s, args[sp[2]], [(a, sp[1])], n, fr)
            if not done or (v is None and kind != "for_each") or s.dead:
                break
            if kind == "any_of":
                r = tm.or_(r, v)
            elif kind == "all_of":
                r = tm.and_(r, v)
            elif kind == "none_of":
                r = tm.and_(r, tm.not_(v))
            elif kind == "count_if":
                r = tm.add(I64, r, mk("cast", I64, v))
        else:
            st.become(s)
            return I.unknown(n, st, fr) if kind == "for_each" else r
        if s.dead:
            st.become(s)
            return I.unknown(n, st, fr)
    for v in args:
        if v is not None:
            I.escape_lambda(v, n, st, fr)
    return I.unknown(n, st, fr)
