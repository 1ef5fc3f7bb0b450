"""Abstract interpreter over the type-checked syntax tree.

It computes, for one function and (by inlining) the repository functions it calls, the value term of
every expression at every program point, the branch facts that dominate the point, and the memory
state at every exit.  Control flow is joined where the source joins it (`ite` on the branch condition,
facts intersected); loops are abstracted to a fixed point: every location the body may change gets an
unknown loop value.  No path is enumerated and no solver is asked.
"""
from . import terms as tm
from .terms import mk, c, TRUE, FALSE, NULL, ZERO, isc
from .facts import is_repo

FT = ("f",)
I64 = ("i", 64)
U64 = ("u", 64)
PT = ("p",)
BT = ("b",)


KIDS = {}  # address -> the addresses inside it that were ever a key of a store
LOCALS = {}  # frame id -> addresses of its locals and temporaries
_SEEN = set()


class Store(dict):
    """Memory: address -> value, with an index of sub-object addresses (shared; terms are unique)."""

    __slots__ = ()

    def __setitem__(self, k, v):
        if k not in _SEEN:
            _SEEN.add(k)
            x = k
            while x.op in ("fld", "el", "padd"):
                x = x.a[0]
                KIDS.setdefault(x, {})[k] = True
            if x.op == "var":
                LOCALS.setdefault(x.a[1], {})[k] = True
            elif x.op == "tmp" and x.a[3] != "keep":
                LOCALS.setdefault(x.a[2], {})[k] = True
        dict.__setitem__(self, k, v)


class State:
    __slots__ = ("store", "facts", "eqc", "impl", "clob", "path", "dead", "g", "log")

    def __init__(self):
        self.store = Store()
        self.facts = {}
        self.eqc = {}
        self.impl = {}
        self.clob = {}
        self.path = ()
        self.dead = False
        self.g = {}
        self.log = ()

    def copy(self):
        s = State.__new__(State)
        s.store = Store(self.store)
        s.facts = dict(self.facts)
        s.eqc = dict(self.eqc)
        s.impl = dict(self.impl)
        s.clob = dict(self.clob)
        s.path = self.path
        s.dead = self.dead
        s.g = dict(self.g)
        s.log = self.log
        return s

    def become(self, o):
        self.store, self.facts, self.eqc, self.impl = o.store, o.facts, o.eqc, o.impl
        self.clob, self.path, self.dead, self.g, self.log = o.clob, o.path, o.dead, o.g, o.log


class Frame:
    __slots__ = ("fn", "id", "parent", "env", "this", "returns", "depth", "sinks", "dyn", "lam", "site", "locals")

    def __init__(self, fn, fid, parent, this):
        self.fn = fn
        self.id = fid
        self.parent = parent
        self.env = {}
        self.this = this
        self.returns = []
        self.depth = parent.depth + 1 if parent else 0
        self.sinks = []  # stack of dicts {brk:[],cont:[]}
        self.lam = None
        self.site = None


class Hooks:
    def on_store(self, I, st, addr, val, node, fr):
        pass

    def on_call(self, I, st, f, node, this, args, fr):
        pass

    def on_deref(self, I, st, ptr, node, fr, how):
        pass

    def on_index(self, I, st, base, idx, node, fr, how):
        pass

    def on_return(self, I, st, val, node, fr):
        pass

    def on_throw(self, I, st, node, fr):
        pass

    def on_loop(self, I, st, end, cond, node, fr):
        pass

    def on_memcopy(self, I, st, dst, src, size, node, fr):
        pass

    def on_arith(self, I, st, term, node, fr):
        pass


class Budget(Exception):
    pass


SMART = {"std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "std::__shared_ptr_access"}
SEQ = {"std::vector", "std::span", "std::initializer_list", "std::basic_string", "std::basic_string_view"}
LOOPS = {"ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"}


# external functions on the way to a throw that are not themselves taken to throw
CALM = ("std::operator+", "std::operator<<", "std::basic_ostream", "std::basic_string", "std::to_string", "fileno", "isatty")


class Interp:
    new_hook = None  # (I, node, constructor expression, record, st, fr) -> pointer

    def __init__(self, P, hooks=None, maxdepth=10, budget=400000, inline=None, unroll=10, models=None):
        self.P = P
        self.H = hooks or Hooks()
        self.maxdepth = maxdepth
        self.recursion = 0  # how many calls of a function inside itself are followed
        self.budget = budget
        self.steps = 0
        self.quiet = 0
        self.inline_ok = inline or (lambda f: True)
        self.unroll = unroll
        self.throw_sinks = []
        self.dtors = False          # run destructors of local objects
        self.calm = False           # take library functions not to throw
        self.first_statics = False  # static locals are not initialised yet when their function is called
        self.split = None           # choices for open conditions (paths followed one by one)
        self.trail = []             # the conditions chosen
        self._dtor = {}
        self.nopaque = 0  # calls that could throw unseen
        self.frames = {}
        self.gvals = {}
        self.dyn = {}       # address/pointer term -> record id of the dynamic type
        self.lams = {}
        self._kind = {}
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.visited = set()
        self.opaque = {}
        self._alias = {}
        for d in P.field_of:
            tm.NAMES.setdefault(d, P.field_of[d][1]["n"])

    # ---- types ------------------------------------------------------------------------------
    def tc(self, i):
        t = self.P.ty(self.P.deref_type(i))
        k = t["k"]
        if k == "bool":
            return BT
        if k == "int":
            return (("i" if t["sg"] else "u"), t["w"])
        if k == "enum":
            return ("i", t.get("w", 32))
        if k == "float":
            return FT
        if k == "ptr":
            return PT
        if k == "rec" and t["key"] in SMART:
            return PT
        if t["s"] == "std::nullptr_t":
            return PT
        return None

    def kind(self, i):
        i = self.P.deref_type(i)
        k = self._kind.get(i)
        if k is not None:
            return k
        t = self.P.ty(i)
        if t["k"] in ("bool", "int", "enum", "float", "ptr"):
            k = "scalar"
        elif t["k"] == "array":
            k = "arr"
        elif t["k"] == "rec":
            key = t["key"]
            if key in SMART:
                k = "sptr"
            elif key in ("glm::vec", "glm::qua"):
                k = "vec"
            elif key == "glm::mat":
                k = "mat"
            elif key == "std::array":
                k = "arr"
            elif key in SEQ:
                k = "seq"
            elif key == "std::optional":
                k = "opt"
            elif key == "__gnu_cxx::__normal_iterator":
                k = "iter"
            else:
                r = self.P.records.get(t["rec"])
                if r is not None and r.get("lambda"):
                    k = "lambda"
                elif r is not None and not (r.get("file") or "/").startswith("/"):
                    k = "repo"
                else:
                    k = "ext"
        else:
            k = "scalar" if t["s"] == "std::nullptr_t" else "ext"
        self._kind[i] = k
        return k

    def is_val(self, i):
        """Expressions of this type evaluate to a value (not to the address of an object)."""
        return self.kind(i) == "scalar"

    def vec_n(self, i):
        t = self.P.ty(self.P.deref_type(i))
        if t["key"] == "glm::qua":
            return 4
        return int(t["targs"][0])

    def mat_cr(self, i):
        t = self.P.ty(self.P.deref_type(i))
        return int(t["targs"][0]), int(t["targs"][1])

    def arr_n(self, i):
        t = self.P.ty(self.P.deref_type(i))
        if t["k"] == "array":
            return t["n"], t["p"]
        return int(t["targs"][1]), t["targs"][0]

    def elem_t(self, i):
        t = self.P.ty(self.P.deref_type(i))
        if t["k"] in ("array", "ptr"):
            return t["p"]
        if t["k"] == "rec" and t.get("targs"):
            for x in t["targs"]:
                if isinstance(x, int):
                    return x
        return -1

    # ---- frames and addresses ---------------------------------------------------------------
    def frame_id(self, key):
        f = self.frames.get(key)
        if f is None:
            f = len(self.frames) + 1
            self.frames[key] = f
        return f

    def nk(self, n, fr):
        return (n.fn.id if n.fn is not None else 0, n.i, fr.id)

    def tmp(self, n, fr, tag=""):
        return mk("tmp", fr.fn.id if fr.fn else 0, n.i, fr.id, tag)

    def fresh(self, n, fr, tag="hv"):
        return mk("hv", fr.fn.id if fr.fn else 0, n.i, fr.id, tag)

    def var_addr(self, d, fr, n=None):
        f = fr
        while f is not None:
            a = f.env.get(d)
            if a is not None:
                return a
            f = f.lam  # lexically enclosing frame of a lambda body
        return None

    # ---- memory -----------------------------------------------------------------------------
    def version(self, st, a):
        if not st.clob:
            return 0
        r = tm.root(a)
        out = []
        cl = st.clob
        for x in tm.chain(a):
            t = cl.get(("sub", x))
            if t is not None:
                out.append(t)
            if x.op == "fld":
                t = cl.get(("f", x.a[1]))
                if t is not None and r.op not in ("var", "tmp"):
                    out.append(t)
            elif x.op == "el":
                t = cl.get(("el", x.a[0]))
                if t is not None:
                    out.append(t)
        t = cl.get("all")
        if t is not None and r.op not in ("var", "tmp"):
            out.append(t)
        return tuple(out) if out else 0

    def load(self, st, a, tcode=None):
        v = self.load0(st, a)
        if tcode:
            tm.settype(v, tcode)
        return v

    def load0(self, st, a):
        if a.op == "ite":
            return tm.ite(a.a[0], self.load0(st, a.a[1]), self.load0(st, a.a[2]))
        v = st.store.get(a)
        if v is not None:
            return v
        if a.op == "glob" and a.a[0] in self.gvals:
            return self.gvals[a.a[0]]
        if a.op == "str" and a.a[0]:
            return c(ord(a.a[0][0]))
        if a.op == "el" and a.a[0].op == "str" and isinstance(a.a[1], tm.T) and isc(a.a[1]) and 0 <= a.a[1].a[0] <= len(a.a[0].a[0]):
            return c(ord((a.a[0].a[0] + "\0")[int(a.a[1].a[0])]))
        p = tm.parent(a)
        if p is not None:
            v = self.pick(st, a)
            if v is not None:
                return v
            pv = self.agg_val(st, p)
            if pv is not None:
                return tm.prj(pv, a.a[1])
            if isinstance(a.a[1], str):
                return tm.prj(self.load0(st, p), a.a[1])
        return mk("ld", a, self.version(st, a))

    def pick(self, st, a):
        """A load at a symbolic index of an array whose elements are known: a choice by index."""
        x, path = a, []
        while x is not None and not (x.op == "el" and isinstance(x.a[1], tm.T) and not isc(x.a[1])):
            path.append(x)
            x = tm.parent(x)
        if x is None:
            return None
        b, i = x.a
        if i.op == "ite":
            f = lambda j: self.repath(tm.el(b, j), path)
            return tm.ite(i.a[0], self.load0(st, f(i.a[1])), self.load0(st, f(i.a[2])))
        if ("el", b) in st.clob:
            return None
        ks = set()
        for k in self.subs(st, b):
            while k.op in ("fld", "el") and k.a[0] is not b:
                k = k.a[0]
            if k.op == "el" and isinstance(k.a[1], tm.T) and isc(k.a[1]):
                ks.add(k.a[1].a[0])
        if not ks or len(ks) > 64 or ks != set(range(len(ks))):
            return None
        r = mk("ld", a, self.version(st, a))
        for k in sorted(ks, reverse=True):
            r = tm.ite(tm.eq(("i", 64), i, c(k)), self.load0(st, self.repath(tm.el(b, c(k)), path)), r)
        return r

    @staticmethod
    def repath(x, path):
        for y in reversed(path):
            x = tm.fld(x, y.a[1]) if y.op == "fld" else tm.el(x, y.a[1])
        return x

    def agg_val(self, st, a):
        """The value last stored to the whole object at a, if any."""
        v = st.store.get(a)
        if v is not None:
            return v
        p = tm.parent(a)
        if p is not None:
            pv = self.agg_val(st, p)
            if pv is not None:
                return tm.prj(pv, a.a[1])
        return None

    def kill_sub(self, st, a):
        for k in self.subs(st, a):
            del st.store[k]

    @staticmethod
    def subs(st, a):
        """The addresses in the store that are inside the object at a."""
        ks = KIDS.get(a)
        if not ks:
            return []
        if len(ks) <= len(st.store):
            return [k for k in ks if k in st.store]
        return [k for k in st.store if k in ks]

    @staticmethod
    def under(k, a):
        while k.op in ("fld", "el", "padd"):
            k = k.a[0]
            if k is a:
                return True
        return False

    def store(self, st, a, v, node=None, fr=None, agg=False, tcode=None):
        if a.op == "ite":
            k, x, y = a.a
            self.store(st, x, tm.ite(k, v, self.load(st, x)), node, fr, agg)
            self.store(st, y, tm.ite(k, self.load(st, y), v), node, fr, agg)
            return
        if tcode:
            tm.settype(v, tcode)
        if not self.quiet and node is not None:
            self.H.on_store(self, st, a, v, node, fr)
        r = tm.root(a)
        # other names of the same location
        if a.op == "fld" and r.op not in ("var", "tmp"):
            d = a.a[1]
            for k in [k for k in st.store if k.op == "fld" and k.a[1] == d and k is not a]:
                rk = tm.root(k)
                if rk.op in ("var", "tmp") or (rk.op == "new" and r.op == "new"):
                    continue
                if rk is r and not self.may_alias_same_root(k, a):
                    continue
                if rk.op == "new" and rk is not r and r.op in ("this", "par"):
                    continue
                if r.op == "new" and rk.op in ("this", "par"):
                    continue
                del st.store[k]
                st.clob[("sub", k)] = self.tok(node, fr)
            if r.op != "new":
                # not yet loaded aliases
                pass
        elif a.op == "el" and not isinstance(a.a[1], str):
            b = a.a[0]
            i = a.a[1]
            for k in [k for k in self.subs(st, b) if k.op == "el" and k.a[0] is b and k is not a and isinstance(k.a[1], tm.T)]:
                if isc(i) and isc(k.a[1]):
                    continue
                del st.store[k]
                self.kill_sub(st, k)
            if not isc(i):
                st.clob[("el", b)] = self.tok(node, fr)
        if agg or self.has_sub(st, a):
            self.kill_sub(st, a)
            for k in [k for k in st.clob if isinstance(k, tuple) and k[0] in ("sub", "el") and (k[1] is a or self.under(k[1], a))]:
                del st.clob[k]
        st.store[a] = v

    def may_alias_same_root(self, k, a):
        # same root: alias only through element indices that are not distinct constants
        ck, ca = tm.chain(k), tm.chain(a)
        if len(ck) != len(ca):
            return any(x.op in ("el", "padd") and not isc(x.a[1]) for x in ck + ca if isinstance(x.a[1] if len(x.a) > 1 else None, tm.T))
        var = False
        for x, y in zip(ck, ca):
            if x is y:
                continue
            if x.op == "fld" and y.op == "fld" and x.a[1] == y.a[1]:
                continue
            if x.op == "el" and y.op == "el" and isinstance(x.a[1], tm.T) and isinstance(y.a[1], tm.T):
                if isc(x.a[1]) and isc(y.a[1]) and x.a[1] is not y.a[1]:
                    return False
                var = True
                continue
            return False
        return var

    def has_sub(self, st, a):
        ks = KIDS.get(a)
        if not ks:
            return False
        if len(ks) <= len(st.store):
            return any(k in st.store for k in ks)
        return any(k in ks for k in st.store)

    def tok(self, node, fr):
        return mk("tok", node.fn.id if node is not None and node.fn else 0, node.i if node is not None else 0, fr.id if fr else 0)

    def clobber(self, st, a, node, fr):
        """The object at a (and everything in it) may have changed."""
        if a.op == "ite":
            self.clobber(st, a.a[1], node, fr)
            self.clobber(st, a.a[2], node, fr)
            return
        if a.op in ("c", "str", "fnref"):
            return
        if a.op in ("el", "padd") and isinstance(a.a[1], tm.T):
            # pointer into a buffer: the whole buffer may change
            b = a.a[0]
            t = self.tok(node, fr)
            for k in [k for k in self.subs(st, b) if not (k.op == "el" and isinstance(k.a[1], str))]:
                del st.store[k]
            st.clob[("el", b)] = t
            if a.op == "padd":
                st.clob[("sub", b)] = t
            if not self.quiet:
                self.H.on_store(self, st, a, self.fresh(node, fr, "clobber"), node, fr)
            return
        if not self.quiet:
            self.H.on_store(self, st, a, self.fresh(node, fr, "clobber"), node, fr)
        self.kill_sub(st, a)
        st.store.pop(a, None)
        for k in [k for k in st.clob if isinstance(k, tuple) and k[0] in ("sub", "el") and (k[1] is a or self.under(k[1], a))]:
            del st.clob[k]
        p = self.agg_val(st, a)
        if p is not None:
            st.store[a] = mk("hv", node.fn.id, node.i, fr.id, "cl")
        st.clob[("sub", a)] = self.tok(node, fr)

    def copy_obj(self, st, dst, src, ti, node=None, fr=None, depth=0):
        """Copy the object of type ti at src to dst."""
        if dst is src:
            return
        if dst.op == "ite":
            self.clobber(st, dst, node, fr)
            return
        if src in self.lams:
            self.lams[dst] = self.lams[src]
        k = self.kind(ti)
        if k in ("scalar", "sptr", "iter"):
            self.store(st, dst, self.load(st, src, self.tc(ti)), node if depth == 0 else None, fr)
            if src in self.dyn:
                self.dyn[dst] = self.dyn[src]
            return
        if depth == 0 and node is not None and not self.quiet:
            self.H.on_store(self, st, dst, src, node, fr)
        if k == "vec":
            n = self.vec_n(ti)
            et = self.elem_t(ti)
            vals = [self.load(st, tm.el(src, c(i)), self.tc(et)) for i in range(n)]
            self.kill_sub(st, dst)
            st.store.pop(dst, None)
            for i in range(n):
                self.store(st, tm.el(dst, c(i)), vals[i])
            return
        if k == "mat":
            C, R = self.mat_cr(ti)
            vals = [[self.load(st, tm.el(tm.el(src, c(i)), c(j)), FT) for j in range(R)] for i in range(C)]
            self.kill_sub(st, dst)
            st.store.pop(dst, None)
            for i in range(C):
                for j in range(R):
                    self.store(st, tm.el(tm.el(dst, c(i)), c(j)), vals[i][j])
            return
        if k == "arr":
            n, et = self.arr_n(ti)
            if n <= 16 and isinstance(et, int):
                for i in range(n):
                    self.copy_obj(st, tm.el(dst, c(i)), tm.el(src, c(i)), et, node, fr, depth + 1)
                return
        if k == "repo":
            t = self.P.ty(self.P.deref_type(ti))
            r = self.P.records[t["rec"]]
            self.copy_rec(st, dst, src, r, node, fr, depth)
            return
        # opaque object: whole value plus known parts
        whole = self.load(st, src)
        subs = [(kk, st.store[kk]) for kk in self.subs(st, src)]
        self.kill_sub(st, dst)
        for ck in [x for x in st.clob if isinstance(x, tuple) and x[0] in ("sub", "el") and (x[1] is dst or self.under(x[1], dst))]:
            del st.clob[ck]
        if src not in st.store and ("sub", src) not in st.clob and ("el", src) in st.clob:
            whole = mk("hv", 0, 0, 0, whole, st.clob[("el", src)])
        st.store[dst] = whole
        for kk, v in subs:
            st.store[self.rebase(kk, src, dst)] = v
        if src in self.dyn:
            self.dyn[dst] = self.dyn[src]

    def rebase(self, k, src, dst):
        if k is src:
            return dst
        return mk(k.op, self.rebase(k.a[0], src, dst), *k.a[1:])

    def copy_rec(self, st, dst, src, r, node, fr, depth):
        for b in r.get("bases", ()):
            br = self.P.records.get(b["id"])
            if br is not None:
                self.copy_rec(st, dst, src, br, node, fr, depth)
        for fd in r.get("fields", ()):
            t = self.P.ty(fd["t"])
            if t["k"] == "ref":
                continue
            self.copy_obj(st, tm.fld(dst, fd["d"]), tm.fld(src, fd["d"]), fd["t"], node, fr, depth + 1)

    # ---- facts ------------------------------------------------------------------------------
    def known(self, st, t):
        if isc(t):
            return bool(t.a[0])
        f = st.facts.get(t)
        if f is not None:
            return f
        o = t.op
        if o == "not":
            k = self.known(st, t.a[0])
            return None if k is None else not k
        if o == "and":
            a, b = self.known(st, t.a[0]), self.known(st, t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if o == "or":
            a, b = self.known(st, t.a[0]), self.known(st, t.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        if o == "ite":
            k = self.known(st, t.a[0])
            if k is not None:
                return self.known(st, t.a[1] if k else t.a[2])
            a, b = self.known(st, t.a[1]), self.known(st, t.a[2])
            return a if a is not None and a == b else None
        if o in ("eq", "lt", "le"):
            x, y = t.a[1], t.a[2]
            x2, y2 = self.subst(st, x), self.subst(st, y)
            if x2 is not x or y2 is not y:
                r = {"eq": tm.eq, "lt": tm.lt, "le": tm.le}[o](t.a[0], x2, y2)
                if r is not t:
                    return self.known(st, r)
            if o == "eq" and t.a[0] and t.a[0][0] in "iup":
                if st.facts.get(mk("lt", t.a[0], x, y)) or st.facts.get(mk("lt", t.a[0], y, x)):
                    return False
            if o == "le" and t.a[0] and t.a[0][0] == "u" and isc(x) and x.a[0] == 0:
                return True
            if o == "lt" and t.a[0] and t.a[0][0] == "u" and isc(y) and y.a[0] == 0:
                return False
        return None

    def subst(self, st, x):
        v = st.eqc.get(x)
        if v is not None:
            return v
        if x.op == "ite":
            k = self.known(st, x.a[0])
            if k is not None:
                return self.subst(st, x.a[1] if k else x.a[2])
        return x

    def assume(self, st, t, pol):
        if st.dead:
            return
        o = t.op
        if isc(t):
            if bool(t.a[0]) != pol:
                st.dead = True
            return
        if o == "not":
            return self.assume(st, t.a[0], not pol)
        k = self.known(st, t)
        if k is not None:
            if k != pol:
                st.dead = True
            if t in st.facts:
                return
        if (o == "and" and pol) or (o == "or" and not pol):
            self.assume(st, t.a[0], pol)
            self.assume(st, t.a[1], pol)
            st.facts[t] = pol
            self.fire(st, t, pol)
            return
        if o in ("and", "or"):
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                kx = self.known(st, x)
                if kx is not None and kx == (o == "and"):
                    self.assume(st, y, pol)
                    return
        if o == "ite":
            ka, kb = self.known(st, t.a[1]), self.known(st, t.a[2])
            if ka is not None and ka != pol:
                self.assume(st, t.a[0], False)
                self.assume(st, t.a[2], pol)
            elif kb is not None and kb != pol:
                self.assume(st, t.a[0], True)
                self.assume(st, t.a[1], pol)
        st.facts[t] = pol
        if o == "eq" and pol:
            if isc(t.a[2]):
                st.eqc[t.a[1]] = t.a[2]
            elif isc(t.a[1]):
                st.eqc[t.a[2]] = t.a[1]
        self.fire(st, t, pol)

    def fire(self, st, t, pol):
        im = st.impl.get((t, pol))
        if im:
            for x, p in im:
                if st.facts.get(x) is None:
                    self.assume(st, x, p)

    def decide(self, st, cond):
        """known(); when paths are followed one by one (self.split: the choices made so far) an open condition is chosen."""
        k = self.known(st, cond)
        if k is not None or self.split is None or self.quiet:
            return k
        i = len(self.trail)
        k = self.split[i] if i < len(self.split) else True
        self.trail.append((cond, k))
        self.assume(st, cond, k)
        return k

    def branch(self, st, cond):
        """(state if true, state if false); None where the branch is impossible."""
        k = self.decide(st, cond)
        if k is True:
            return st, None
        if k is False:
            return None, st
        a, b = st.copy(), st
        self.assume(a, cond, True)
        self.assume(b, cond, False)
        if a.dead or b.dead:
            return (None if a.dead else a), (None if b.dead else b)
        a.path = a.path + ((cond, True),)
        b.path = b.path + ((cond, False),)
        return a, b

    # ---- joins ------------------------------------------------------------------------------
    def merge(self, items, base, tag):
        """items: [(state, value or None)]; joins them into one (state, value)."""
        items = [x for x in items if x[0] is not None and not x[0].dead]
        if not items:
            return None, None
        if len(items) == 1:
            # the other ways through left (returned or threw): what led here still holds
            return items[0]
        s, v = self._merge(items, base, tag)
        s.path = s.path[:base]
        return s, v

    def _merge(self, items, d, tag):
        if len(items) == 1:
            return items[0]
        p0 = items[0][0].path
        if all(len(x[0].path) > d for x in items):
            cond = p0[d][0]
            if all(x[0].path[d][0] is cond for x in items):
                a = [x for x in items if x[0].path[d][1]]
                b = [x for x in items if not x[0].path[d][1]]
                if not a or not b:
                    return self._merge(items, d + 1, tag)
                return self.join2(self._merge(a, d + 1, tag), self._merge(b, d + 1, tag), cond, tag)
        # first match wins: items are in program order, so each one's path condition is exact
        # given that none of the earlier ones was taken
        r = items[-1]
        for i in range(len(items) - 2, -1, -1):
            x = items[i]
            cond = None
            for t, p in x[0].path[d:]:
                k = t if p else tm.not_(t)
                cond = k if cond is None else tm.and_(cond, k)
            r = self.join2(x, r, cond, tag + (i,))
        return r

    def join2(self, A, B, cond, tag):
        s1, v1 = A
        s2, v2 = B
        if s1 is s2:
            return s1, self.jv(v1, v2, cond, tag, "v")
        s = State()
        # memory
        st1, st2 = s1.store, s2.store
        out = s.store
        for k in st1.keys() | st2.keys():
            x, y = st1.get(k), st2.get(k)
            if x is y:
                out[k] = x
                continue
            if x is None:
                if k.op in ("var", "tmp"):
                    if st1.get(k) is None and not self.has_sub(s1, k):
                        continue  # not yet alive on one side
                if tm.root(k).op in ("var", "tmp") and not self.rootlive(s1, k):
                    continue
                x = self.load0(s1, k)
            if y is None:
                if tm.root(k).op in ("var", "tmp") and not self.rootlive(s2, k):
                    continue
                y = self.load0(s2, k)
            out[k] = self.jv(x, y, cond, tag, k)
        # facts
        for t, p in s1.facts.items():
            if s2.facts.get(t) == p:
                s.facts[t] = p
        for t, p in s1.eqc.items():
            if s2.eqc.get(t) is p:
                s.eqc[t] = p
        for k, x in s1.impl.items():
            if s2.impl.get(k) == x:
                s.impl[k] = x
            elif k not in s2.impl and s2.facts.get(k[0]) == (not k[1]):
                s.impl[k] = x
        for k, x in s2.impl.items():
            if k not in s.impl and k not in s1.impl and s1.facts.get(k[0]) == (not k[1]):
                s.impl[k] = x
        if cond is not None:
            u1 = [(t, p) for t, p in s1.facts.items() if s2.facts.get(t) != p and t is not cond]
            u2 = [(t, p) for t, p in s2.facts.items() if s1.facts.get(t) != p and t is not cond]
            if u1:
                s.impl[(cond, True)] = s.impl.get((cond, True), ()) + tuple(u1)
            if u2:
                s.impl[(cond, False)] = s.impl.get((cond, False), ()) + tuple(u2)
        # facts known because every value agrees
        # clobbers
        for k in s1.clob.keys() | s2.clob.keys():
            x, y = s1.clob.get(k), s2.clob.get(k)
            s.clob[k] = x if x is y else mk("jt", cond if cond is not None else tag, x, y)
        for k in s1.g.keys() | s2.g.keys():
            x, y = s1.g.get(k), s2.g.get(k)
            if x == y:
                s.g[k] = x
            else:
                s.g[k] = self.join_ghost(k, x, y)
        n = 0
        for p, q in zip(s1.path, s2.path):
            if p != q:
                break
            n += 1
        s.path = s1.path[:n]
        s.log = s1.log if s1.log == s2.log else (mk("jl", cond if cond is not None else tag, s1.log, s2.log),)
        return s, self.jv(v1, v2, cond, tag, "v")

    def join_ghost(self, k, x, y):
        if isinstance(x, frozenset) or isinstance(y, frozenset):
            return (x or frozenset()) | (y or frozenset())
        return None

    def rootlive(self, s, k):
        r = tm.root(k)
        return r in s.store or self.has_sub(s, r)

    def jv(self, x, y, cond, tag, k):
        if x is y or y is None:
            return x
        if x is None:
            return y
        if cond is not None:
            v = tm.ite(cond, x, y)
        else:
            v = mk("phi", tag, x, y)
        t = tm.TY.get(x) or tm.TY.get(y)
        if t:
            tm.settype(v, t)
        return v

    # ---- statements -------------------------------------------------------------------------
    def run(self, fn, this=None, pre=None, args=None, st=None):
        """Analyse fn with symbolic inputs. Returns (merged exit state, value, frame, throws)."""
        st = st or State()
        fr = Frame(fn, self.frame_id(("root", fn.id)), None, this if this is not None else mk("this"))
        for i, p in enumerate(fn.params):
            tm.NAMES[p["d"]] = p["n"] or ("arg%d" % i)
            k = self.P.ty(p["t"])["k"]
            a = mk("par", p["d"])
            if args and i in args:
                if k == "ref" or not self.is_val(p["t"]):
                    fr.env[p["d"]] = args[i]
                else:
                    fr.env[p["d"]] = mk("var", p["d"], fr.id)
                    self.store(st, fr.env[p["d"]], args[i])
                continue
            if k == "ref":
                fr.env[p["d"]] = a
            else:
                v = mk("var", p["d"], fr.id)
                fr.env[p["d"]] = v
                if self.is_val(p["t"]):
                    tm.settype(a, self.tc(p["t"]))
                    st.store[v] = a
                else:
                    # by-value object: a copy only this function sees
                    fr.env[p["d"]] = a
        if pre:
            pre(self, st, fr)
        self.throw_sinks.append([])
        self.visited.add(fn.id)
        s = self.body(fn, st, fr)
        throws = self.throw_sinks.pop()
        rets = list(fr.returns)
        if s is not None and not s.dead:
            rets.append((s, None))
            if not self.quiet:
                self.H.on_return(self, s, None, None, fr)
        ms, mv = self.merge([(x[0].copy(), x[1]) for x in rets], 0, ("ret", fn.id))
        return Result(ms, mv, fr, throws, rets)

    def body(self, fn, st, fr):
        if fn.inits or fn.sp in ("default", "ctor", "copy", "move"):
            self.run_inits(fn, st, fr)
            if st.dead:
                return None
        if fn.body is None:
            return st
        return self.exec(fn.body, st, fr)

    def run_inits(self, fn, st, fr):
        this = fr.this
        for x in fn.inits:
            e = x["e"]
            if st.dead:
                return
            if e is None:
                continue
            if "field" in x:
                fd = self.P.field_of.get(x["field"])
                if fd is None:
                    self.eval(e, st, fr)
                    continue
                a = tm.fld(this, x["field"])
                ft = fd[1]["t"]
                if self.P.ty(ft)["k"] == "ref":
                    v = self.eval(e, st, fr)
                    self._alias[a] = v
                    st.store[a] = v
                    continue
                self.init(e, a, ft, st, fr)
            else:
                self.init(e, this, e.t, st, fr)

    def init(self, e, a, ti, st, fr):
        """Initialise the object of type ti at address a from expression e."""
        if e.k == "CXXDefaultInitExpr":
            if e.c and e.c[0] is not None:
                e = e.c[0]
            else:
                return
        while e.k == "ImplicitCastExpr" and e.get("ck") in ("NoOp", "ConstructorConversion", "UserDefinedConversion") and e.c and not self.is_val(ti):
            e = e.c[0]
        if e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not self.is_val(ti):
            self.construct(e, a, st, fr)
            return
        if e.k in ("InitListExpr",) and not self.is_val(ti):
            self.init_list(e, a, ti, st, fr)
            return
        if e.k == "CXXInheritedCtorInitExpr":
            f = self.P.fns.get(e.get("f"))
            if f is not None and fr.fn is not None:
                args = [fr.env.get(p["d"]) if self.P.ty(p["t"])["k"] == "ref" or not self.is_val(p["t"]) else self.load(st, fr.env[p["d"]]) for p in fr.fn.params]
                if f.id in self.P.fns and not f.ext:
                    self.invoke(f, a, args, e, st, fr)
            return
        if e.k == "ImplicitValueInitExpr":
            if self.is_val(ti) or self.kind(ti) == "sptr":
                self.store(st, a, ZERO, e, fr)
            return
        v = self.eval(e, st, fr)
        if st.dead:
            return
        if self.is_val(ti):
            if v is not None:
                self.store(st, a, v, e, fr, tcode=self.tc(ti))
        elif v is not None:
            self.copy_obj(st, a, v, ti, e, fr)

    def init_list(self, e, a, ti, st, fr):
        k = self.kind(ti)
        if k == "repo":
            r = self.P.records[self.P.ty(self.P.deref_type(ti))["rec"]]
            if len(e.c) == 1 and e.c[0] is not None and not r.get("agg"):
                return self.init(e.c[0], a, ti, st, fr)
            fs = [None] * len(r.get("bases", ())) + list(r.get("fields", ()))
            for x, fd in zip(e.c, fs):
                if x is None:
                    continue
                if fd is None:
                    self.init(x, a, x.t, st, fr)
                else:
                    self.init(x, tm.fld(a, fd["d"]), fd["t"], st, fr)
            return
        if k == "arr":
            n, et = self.arr_n(ti)
            xs = e.c
            if len(xs) == 1 and xs[0] is not None and xs[0].k == "InitListExpr" and self.P.ty(xs[0].t)["k"] == "array":
                xs = xs[0].c
            if isinstance(et, int):
                for i, x in enumerate(xs):
                    if x is not None and i < 64:
                        self.init(x, tm.el(a, c(i)), et, st, fr)
                if n <= 64:
                    for i in range(len(xs), n):
                        if self.is_val(et):
                            self.store(st, tm.el(a, c(i)), ZERO)
            return
        if len(e.c) == 1 and e.c[0] is not None:
            return self.init(e.c[0], a, ti, st, fr)
        for x in e.c:
            if x is not None:
                self.eval(x, st, fr)
        self.kill_sub(st, a)
        st.store[a] = self.fresh(e, fr, "init")

    def exec(self, n, st, fr):
        """Executes a statement; returns the fall-through state or None."""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("more than %d steps" % self.budget)
        m = getattr(self, "s_" + n.k, None)
        if m is not None:
            return m(n, st, fr)
        self.eval(n, st, fr)
        return None if st.dead else st

    def s_CompoundStmt(self, n, st, fr):
        if self.dtors:
            return self.scope(n, st, fr)
        for x in n.c:
            if x is None:
                continue
            st = self.exec(x, st, fr)
            if st is None:
                return None
        return st

    def scope(self, n, st, fr):
        """A block whose local objects with a destructor of the repository are destroyed on every way out."""
        outer = getattr(fr, "locals", None)
        fr.locals = []
        for x in n.c:
            if x is None:
                continue
            st = self.exec(x, st, fr)
            if st is None:
                break
        mine, fr.locals = fr.locals, outer
        for a, g, marks in reversed(mine):
            def destroy(s):
                s = s.copy()
                self.invoke(g, a, [], n, s, fr)
                return s
            for lst, at in marks:
                for i in range(at, len(lst)):
                    x = lst[i]
                    lst[i] = (destroy(x[0]),) + tuple(x[1:]) if isinstance(x, tuple) else destroy(x)
            if st is not None and not st.dead:
                st = destroy(st)
        return st

    def dtor_of(self, t):
        rec = self.P.ty(t).get("rec")
        if rec is None:
            return None
        if rec not in self._dtor:
            self._dtor[rec] = None
            for f in self.P.fns.values():
                if f.sp == "dtor" and f.has_body and f.cls is not None and not f.ext:
                    self._dtor[f.cls] = f
        return self._dtor.get(rec)

    def s_NullStmt(self, n, st, fr):
        return st

    def s_DeclStmt(self, n, st, fr):
        for v in n.c:
            if v is not None and v.k == "Var":
                self.decl(v, st, fr)
                if st.dead:
                    return None
        return st

    def decl(self, v, st, fr):
        d = v.get("d")
        tm.NAMES[d] = v.get("n")
        t = self.P.ty(v.t)
        if v.get("static") and not v.get("constexpr") and "huira/util/" not in (fr.fn.file or "") and (self.first_statics or not t.get("const")):
            fr.env[d] = mk("glob", d)
            if self.first_statics and v.c and v.c[0] is not None:
                g = mk("sguard", d)
                if st.store.get(g) is not TRUE:
                    self.init(v.c[0], fr.env[d], v.t, st, fr)
                    st.store[g] = TRUE
                return
            if v.c and v.c[0] is not None:
                self.quiet += 1
                try:
                    self.eval(v.c[0], st.copy(), fr)
                finally:
                    self.quiet -= 1
            return
        a = mk("var", d, fr.id)
        if t["k"] == "ref":
            if v.c and v.c[0] is not None:
                fr.env[d] = self.ref_arg(v.c[0], st, fr)
            else:
                fr.env[d] = a
        else:
            fr.env[d] = a
            if self.has_sub(st, a):
                self.kill_sub(st, a)
            st.store.pop(a, None)
            for k in [k for k in st.clob if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tm.T) and tm.root(k[1]) is a]:
                del st.clob[k]
            if self.dtors and t["k"] == "rec" and getattr(fr, "locals", None) is not None:
                g = self.dtor_of(v.t)
                if g is not None:
                    if v.c and v.c[0] is not None:
                        self.init(v.c[0], a, v.t, st, fr)
                    lists = [fr.returns] + [x for k in fr.sinks for x in k.values()] + self.throw_sinks[-1:]
                    fr.locals.append((a, g, [(x, len(x)) for x in lists]))
                    return
            if v.c and v.c[0] is not None:
                self.init(v.c[0], a, v.t, st, fr)
            elif self.is_val(v.t):
                st.store[a] = mk("undef", d, fr.id)
        for b in v.get("b", ()):
            src = fr.env[d]
            for i, bd in enumerate(v.get("b")):
                tl = self.tuple_part(v.t, src, i)
                if tl is not None:
                    fr.env[bd["d"]] = tl
                elif bd["e"]:
                    x = self.eval(bd["e"][0], st, fr) if bd["e"][0].get("lv") else None
                    fr.env[bd["d"]] = x if x is not None else tm.el(src, "$%d" % i)
                else:
                    fr.env[bd["d"]] = tm.el(src, "$%d" % i)
            break

    def tuple_part(self, ti, base, i):
        """Address of component i of a std::pair/std::tuple."""
        t = self.P.ty(self.P.deref_type(ti))
        if t.get("key") == "std::pair":
            r = self.P.records.get(t.get("rec"))
            fs = r.get("fields", ()) if r else ()
            if len(fs) == 2:
                return tm.fld(base, fs[i]["d"])
        if t.get("key") in ("std::pair", "std::tuple"):
            return tm.el(base, "$%d" % i)
        return None

    def s_ReturnStmt(self, n, st, fr):
        v = None
        if n.c and n.c[0] is not None:
            e = n.c[0]
            rt = fr.fn.ret if fr.fn is not None else e.t
            if self.P.ty(rt)["k"] == "ref":
                v = self.ref_arg(e, st, fr)
            elif self.is_val(rt) or self.P.ty(rt)["k"] == "void":
                v = self.eval(e, st, fr)
                if v is not None:
                    tm.settype(v, self.tc(rt))
            else:
                a = mk("tmp", fr.fn.id, -1, fr.id, "ret")
                self.kill_sub(st, a)
                st.store.pop(a, None)
                self.init(e, a, rt, st, fr)
                v = a
        if st.dead:
            return None
        if not self.quiet:
            self.H.on_return(self, st, v, n, fr)
        fr.returns.append((st, v))
        return None

    def s_IfStmt(self, n, st, fr):
        i = n.role("init")
        if i is not None:
            st = self.exec(i, st, fr)
            if st is None:
                return None
        cv = n.role("condvar")
        if cv is not None:
            self.decl(cv, st, fr)
        cn = n.role("cond")
        if n.get("constexpr"):
            th, el_ = n.role("then"), n.role("else")
            if th is not None and el_ is None and (cn.get("cv") in (1, None)):
                return self.exec(th, st, fr) if cn.get("cv") == 1 else self._if(n, st, fr, cn)
            if el_ is not None and th is None:
                return self.exec(el_, st, fr)
            if th is None and el_ is None:
                return st
        return self._if(n, st, fr, cn)

    def _if(self, n, st, fr, cn):
        cond = self.eval(cn, st, fr)
        if st.dead:
            return None
        base = len(st.path)
        a, b = self.branch(st, cond)
        th, el_ = n.role("then"), n.role("else")
        if a is not None and th is not None:
            a = self.exec(th, a, fr)
        if b is not None and el_ is not None:
            b = self.exec(el_, b, fr)
        s, _ = self.merge([(a, None), (b, None)], base, ("if",) + self.nk(n, fr))
        return s

    def s_SwitchStmt(self, n, st, fr):
        i = n.role("init")
        if i is not None:
            st = self.exec(i, st, fr)
        cv = n.role("condvar")
        if cv is not None:
            self.decl(cv, st, fr)
        x = self.eval(n.role("cond"), st, fr)
        if st.dead:
            return None
        base = len(st.path)
        ty = self.tc(n.role("cond").t)
        labels = []

        def collect(y):
            if y is None or y.k in ("SwitchStmt", "LambdaExpr"):
                return
            if y.k == "CaseStmt":
                lo = self.eval(y.role("lhs"), st, fr)
                labels.append((y, tm.eq(ty, x, lo)))
            elif y.k == "DefaultStmt":
                labels.append((y, None))
            for z in y.c:
                collect(z)
        collect(n.role("body"))
        entries = {}
        cur = st
        for y, cond in labels:
            if cond is None:
                continue
            if cur is None:
                break
            t, cur = self.branch(cur, cond)
            if t is not None:
                entries[y] = t
        dflt = [y for y, cnd in labels if cnd is None]
        sink = {"brk": [], "cont": None, "entries": entries, "tag": ("sw",) + self.nk(n, fr), "base": base}
        if dflt and cur is not None:
            entries[dflt[0]] = cur
            cur = None
        fr.sinks.append(sink)
        b = n.role("body")
        s = self.sw_exec(b, None, fr, sink)
        fr.sinks.pop()
        items = [(z, None) for z in sink["brk"]]
        if s is not None:
            items.append((s, None))
        if cur is not None:
            items.append((cur, None))
        s, _ = self.merge(items, base, sink["tag"])
        return s

    def sw_exec(self, n, st, fr, sink):
        """Executes a statement that may contain case labels of the innermost switch."""
        if n is None:
            return st
        if n.k == "CompoundStmt":
            for y in n.c:
                if y is not None:
                    st = self.sw_exec(y, st, fr, sink)
            return st
        if n.k in ("CaseStmt", "DefaultStmt"):
            e = sink["entries"].get(n)
            if e is not None:
                st, _ = self.merge([(st, None), (e, None)], sink["base"], sink["tag"]) if st is not None else (e, None)
            subs = [y for y in n.c if y is not None and y.r not in ("lhs", "rhs")]
            for y in subs:
                st = self.sw_exec(y, st, fr, sink)
            return st
        if st is None:
            return None
        return self.exec(n, st, fr)

    def s_CaseStmt(self, n, st, fr):
        subs = [y for y in n.c if y is not None and y.r not in ("lhs", "rhs")]
        for y in subs:
            st = self.exec(y, st, fr)
            if st is None:
                return None
        return st

    s_DefaultStmt = s_CaseStmt

    def s_BreakStmt(self, n, st, fr):
        fr.sinks[-1]["brk"].append(st)
        return None

    def s_ContinueStmt(self, n, st, fr):
        for s in reversed(fr.sinks):
            if s["cont"] is not None:
                s["cont"].append(st)
                break
        return None

    def s_GotoStmt(self, n, st, fr):
        return None

    def s_LabelStmt(self, n, st, fr):
        for y in n.c:
            st = self.exec(y, st, fr)
            if st is None:
                return None
        return st

    def s_AttributedStmt(self, n, st, fr):
        return self.exec(n.c[-1], st, fr)

    def s_CXXTryStmt(self, n, st, fr):
        base = len(st.path)
        self.throw_sinks.append([])
        before = st.copy()
        op = self.nopaque
        nret = len(fr.returns)
        s = self.exec(n.role("body"), st, fr)
        th = self.throw_sinks.pop()
        items = [(s, None)]
        # anything the body may have changed is unknown in a handler
        hs = [(x[0].copy(), None) for x in th]
        entry = before
        known = False
        if hs:
            if op == self.nopaque:  # every way into a handler is known
                entry, _ = self.merge(hs, base, ("try",) + self.nk(n, fr))
                if len(hs) > 1 and len(entry.path) <= base:
                    # the throws are in program order, so together they are taken exactly if one of their conditions holds
                    any_ = None
                    for x, _ in hs:
                        k = None
                        for t, p in x.path[base:]:
                            q = t if p else tm.not_(t)
                            k = q if k is None else tm.and_(k, q)
                        if k is None:
                            any_ = None
                            break
                        any_ = k if any_ is None else tm.or_(any_, k)
                    if any_ is not None:
                        entry = entry.copy()
                        entry.path = entry.path + ((any_, True),)
                        known = True
            else:
                entry, _ = self.merge(hs + [(before, None)], 0, ("try",) + self.nk(n, fr))
                entry.path = before.path
        if not hs and self.calm and op == self.nopaque and (s is not None or len(fr.returns) > nret):
            return s  # nothing in the body throws
        if s is not None and (op != self.nopaque or not hs):
            for k in list(s.store):
                if s.store.get(k) is not before.store.get(k) and k in entry.store:
                    entry.store[k] = self.fresh(n, fr, k)
        for h in n.roles("handler"):
            hst = entry.copy()
            if h.get("d"):
                fr.env[h.get("d")] = mk("tmp", fr.fn.id, h.i, fr.id, "exc")
            b = h.role("body")
            r = self.exec(b, hst, fr) if b is not None else hst
            items.append((r, None))
        if known and len(items) == 2:
            items.reverse()
        s, _ = self.merge(items, base, ("try2",) + self.nk(n, fr))
        return s

    # ---- loops ------------------------------------------------------------------------------
    def s_ForStmt(self, n, st, fr):
        i = n.role("init")
        if i is not None:
            st = self.exec(i, st, fr)
            if st is None:
                return None
        return self.loop(n, st, fr, n.role("cond"), n.role("body"), n.role("inc"), n.role("condvar"), None)

    def s_WhileStmt(self, n, st, fr):
        return self.loop(n, st, fr, n.role("cond"), n.role("body"), None, n.role("condvar"), None)

    def s_DoStmt(self, n, st, fr):
        cn = n.role("cond")
        if cn is not None and cn.get("cv") == 0 or (cn is not None and cn.k == "ImplicitCastExpr" and cn.get("cv") == 0):
            sink = {"brk": [], "cont": []}
            fr.sinks.append(sink)
            base = len(st.path)
            s = self.exec(n.role("body"), st, fr)
            fr.sinks.pop()
            s, _ = self.merge([(s, None)] + [(x, None) for x in sink["brk"] + sink["cont"]], base, ("do",) + self.nk(n, fr))
            return s
        return self.loop(n, st, fr, cn, n.role("body"), None, None, None, dowhile=True)

    def s_CXXForRangeStmt(self, n, st, fr):
        for r in ("init", "range", "begin", "end"):
            x = n.role(r)
            if x is not None:
                st = self.exec(x, st, fr)
                if st is None:
                    return None
        return self.loop(n, st, fr, n.role("cond"), n.role("body"), n.role("inc"), None, n.role("var"))

    def iterate(self, n, st, fr, cn, body, inc, cv, var, dowhile, first=True):
        """One abstract iteration. Returns (state after it or None, exit states, cond term)."""
        exits = []
        cond = TRUE
        if not dowhile:
            if cv is not None:
                self.decl(cv, st, fr)
            if cn is not None:
                cond = self.eval(cn, st, fr)
                if st.dead:
                    return None, exits, cond
                t, f = self.branch(st, cond)
                if f is not None:
                    exits.append(f)
                st = t
        if st is None:
            return None, exits, cond
        sink = {"brk": [], "cont": []}
        fr.sinks.append(sink)
        base = len(st.path)
        if var is not None:
            st = self.exec(var, st, fr)
        s = self.exec(body, st, fr) if st is not None else None
        fr.sinks.pop()
        s, _ = self.merge([(s, None)] + [(x, None) for x in sink["cont"]], base, ("cont",) + self.nk(n, fr))
        if s is not None and inc is not None:
            self.eval(inc, s, fr)
            if s.dead:
                s = None
        if dowhile and s is not None:
            cond = self.eval(cn, s, fr)
            t, f = self.branch(s, cond)
            if f is not None:
                exits.append(f)
            s = t
        self._brk = sink["brk"]
        return s, exits + sink["brk"], cond

    def loop(self, n, st, fr, cn, body, inc, cv, var, dowhile=False):
        base = len(st.path)
        tag = ("loop",) + self.nk(n, fr)
        # small loops with a constant trip count are unrolled
        if (cn is not None or self.split is not None and not self.quiet) and self.unroll and type(self.H) is Hooks and not dowhile and cv is None:
            # nothing observes the run: unroll speculatively and keep the result
            nr, ns = len(fr.returns), len(self.throw_sinks)
            nt = [len(x) for x in self.throw_sinks]
            try:
                r = self._unroll(n, st.copy(), fr, cn, body, inc, cv, var, dowhile, base, tag, strict=True)
                if r is not False:
                    return r
            finally:
                pass
            del fr.returns[nr:]
            del self.throw_sinks[ns:]
            for x, k in zip(self.throw_sinks, nt):
                del x[k:]
        elif cn is not None and self.unroll and self._try_unroll(n, st.copy(), fr, cn, body, inc, cv, var, dowhile):
            return self._unroll(n, st, fr, cn, body, inc, cv, var, dowhile, base, tag)
        if self.split is not None:
            sp, self.split = self.split, None
            try:
                return self.loop(n, st, fr, cn, body, inc, cv, var, dowhile)
            finally:
                self.split = sp
        changed = {}
        clobs = set()
        stores0 = st
        end = None
        for rnd in range(6):
            h = self.havoc(st, n, fr, changed, clobs)
            h0 = h.copy()
            nr = len(fr.returns)
            self.quiet += 1
            self.throw_sinks.append([])
            try:
                s, ex, cond = self.iterate(n, h, fr, cn, body, inc, cv, var, dowhile)
            finally:
                self.quiet -= 1
                self.throw_sinks.pop()
                del fr.returns[nr:]
            end = s
            if s is None:
                break
            new = False
            for k in list(s.store):
                x, y = h0.store.get(k), s.store.get(k)
                if x is not y:
                    if x is None and tm.root(k).op in ("var", "tmp") and not self.rootlive(st, k):
                        continue  # lives inside one iteration
                    if x is None:
                        x = self.load0(h0, k)
                        if x is y:
                            continue
                    if k not in changed:
                        b0 = self.load0(st, k)
                        changed[k] = (b0.a[0], b0.op) if b0.op in ("el", "padd") and y.op == b0.op and y.a[0] is b0.a[0] else None
                        new = True
                    elif changed[k] is not None:
                        b, op = changed[k]
                        if not (y.op == op and y.a[0] is b):
                            changed[k] = None
                            new = True
            for k in h0.store:
                if k not in s.store and k not in changed:
                    if tm.root(k).op in ("var", "tmp") and not self.rootlive(st, k):
                        continue
                    changed[k] = None
                    new = True
            for k in s.clob:
                if s.clob[k] is not h0.clob.get(k) and k not in clobs:
                    clobs.add(k)
                    new = True
            if not new:
                break
        h = self.havoc(st, n, fr, changed, clobs)
        inv = self.induction(st, h, end, changed, cond if end is not None else None, n, fr)
        for t in inv:
            self.assume(h, t, True)
        h.path = st.path
        if not self.quiet:
            self.H.on_loop(self, h, end, cond, n, fr)
        hh = h.copy()
        s, ex, cond = self.iterate(n, h, fr, cn, body, inc, cv, var, dowhile)
        brk = self._brk if ex else []
        out = []
        for e in ex:
            e.path = e.path[:base]
            out.append((e, None))
        r, _ = self.merge(out, base, tag)
        if r is not None and not brk and not dowhile:
            self.exit_values(st, r, changed, cond, hh, end, n, fr)
        return r

    def lpv(self, n, fr, k):
        return mk("lp", n.fn.id, n.i, k, fr.id)

    def havoc(self, st, n, fr, changed, clobs):
        h = st.copy()
        for k in changed:
            v = self.lpv(n, fr, k)
            b = changed[k]
            old = self.load0(st, k)
            if b is not None:
                tm.settype(v, I64)
                v = mk(b[1], b[0], v)
            else:
                t = tm.TY.get(old)
                if old.op == "c":
                    t = None
                if t:
                    tm.settype(v, t)
            if self.has_sub(h, k):
                self.kill_sub(h, k)
            h.store[k] = v
        for k in changed:
            # sub-locations of a changed aggregate keep their own loop values
            if k not in h.store:
                h.store[k] = self.lpv(n, fr, k)
        for k in clobs:
            h.clob[k] = mk("tok", n.fn.id, n.i, fr.id, "lp")
        return h

    def induction(self, st, h, end, changed, cond, n, fr):
        """Facts about counters at the loop head that hold on every iteration."""
        inv = []
        self.counters = {}
        if end is None:
            return inv
        for k, b in changed.items():
            v = h.store.get(k)
            if v is None:
                continue
            v0 = self.load0(st, k)
            ve = self.load0(end, k)
            if b is not None:
                v, v0 = v.a[1], v0.a[1]
                ve = ve.a[1]
                ty = I64
            else:
                ty = tm.TY.get(v) or tm.TY.get(v0)
                if ty is None and ve.op in ("add", "sub"):
                    ty = ve.a[0]
                    tm.settype(v, ty)
            if ty is None or ty[0] not in "iu":
                continue
            steps = self.steps_of(ve, v)
            if steps is None:
                continue
            lo, hi = steps
            if lo is not None and lo >= 0:
                inv.append(tm.le(ty, v0, v))
            if hi is not None and hi <= 0:
                inv.append(tm.le(ty, v, v0))
            self.counters[k] = (v, v0, lo, hi, ty)
            if lo == 1 and hi == 1 and cond is not None:
                N = self.bound_of(cond, v)
                if N is not None and self.invariant_term(N, n, fr):
                    lev = tm.le(ty, v0, N)
                    if self.known(st, lev) or (isc(v0) and v0.a[0] <= 0 and self.nonneg(N)):
                        inv.append(tm.le(ty, v, N))
        return [x for x in inv if x is not TRUE and x is not FALSE]

    def nonneg(self, t):
        ty = tm.TY.get(t)
        if isc(t):
            return t.a[0] >= 0
        if ty and ty[0] == "u":
            return True
        if t.op == "cast" and t.a[0][0] == "u":
            return True
        if t.op == "prj" and t.a[1] == "$size":
            return True
        return False

    def steps_of(self, ve, v):
        if ve is v:
            return 0, 0
        if ve.op == "add":
            for x, y in ((ve.a[1], ve.a[2]), (ve.a[2], ve.a[1])):
                if x is v:
                    if isc(y):
                        return y.a[0], y.a[0]
                    if self.nonneg(y):
                        return 0, None
                else:
                    r = self.steps_of(x, v)
                    if r is not None:
                        if isc(y):
                            return tuple(None if q is None else q + y.a[0] for q in r)
                        if self.nonneg(y) and r[0] is not None:
                            return r[0], None
        if ve.op == "sub" and isc(ve.a[2]):
            r = self.steps_of(ve.a[1], v)
            if r is not None:
                return tuple(None if q is None else q - ve.a[2].a[0] for q in r)
        if ve.op == "ite":
            a, b = self.steps_of(ve.a[1], v), self.steps_of(ve.a[2], v)
            if a and b:
                lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
                hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
                return lo, hi
        if ve.op == "phi":
            a, b = self.steps_of(ve.a[1], v), self.steps_of(ve.a[2], v)
            if a and b:
                lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
                hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
                return lo, hi
        if ve.op == "lp":
            # inner loop value: compare with its own start through recorded monotonicity
            m = self.mono.get(ve)
            if m is not None:
                r = self.steps_of(m[0], v)
                if r is not None:
                    return (r[0] if m[1] >= 0 else None), (r[1] if m[1] <= 0 else None)
        return None

    mono = {}

    def bound_of(self, cond, v):
        """N when the loop condition is v < N or v != N."""
        if cond.op == "lt" and cond.a[1] is v:
            return cond.a[2]
        if cond.op == "not" and cond.a[0].op == "eq":
            e = cond.a[0]
            if e.a[1] is v:
                return e.a[2]
            if e.a[2] is v:
                return e.a[1]
        if cond.op == "and":
            return self.bound_of(cond.a[0], v) or self.bound_of(cond.a[1], v)
        return None

    def invariant_term(self, t, n, fr, seen=None):
        """The term does not depend on values of this loop."""
        if seen is None:
            seen = set()
        if t in seen:
            return True
        seen.add(t)
        if t.op == "lp" and t.a[0] == n.fn.id and t.a[1] == n.i and t.a[3] == fr.id:
            return False
        if t.op in ("hv", "tok") and t.op == "hv":
            return True
        for x in t.a:
            if isinstance(x, tm.T) and not self.invariant_term(x, n, fr, seen):
                return False
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tm.T) and not self.invariant_term(y, n, fr, seen):
                        return False
        return True

    def exit_values(self, st, r, changed, cond, h, end, n, fr):
        for k, (v, v0, lo, hi, ty) in list(self.counters.items()):
            self.mono[v] = (v0, 1 if (lo is not None and lo >= 0) else -1 if (hi is not None and hi <= 0) else 0) if (
                (lo is not None and lo >= 0) or (hi is not None and hi <= 0)) else None
            if self.mono[v] is None:
                del self.mono[v]
            if lo == 1 and hi == 1 and cond.op != "and":
                N = self.bound_of(cond, v)
                if N is None or not self.invariant_term(N, n, fr):
                    continue
                cur = r.store.get(k)
                if isc(v0) and v0.a[0] <= 0 and self.nonneg(N) or self.known(st, tm.le(ty, v0, N)):
                    x = N
                else:
                    x = tm.ite(tm.lt(ty, v0, N), N, v0)
                b = changed[k]
                if cur is v and b is None:
                    r.store[k] = x
                elif b is not None and cur is not None and cur.op == b[1] and cur.a[1] is v:
                    r.store[k] = mk(b[1], b[0], x)

    def _try_unroll(self, n, st, fr, cn, body, inc, cv, var, dowhile):
        # does the condition become a constant in the starting state?
        probe = st.copy()
        if dowhile:
            return False
        self.quiet += 1
        self.throw_sinks.append([])
        nr = len(fr.returns)
        try:
            if cv is not None:
                return False
            cond = self.eval(cn, probe, fr)
            if not isc(self.subst(probe, cond)) and self.known(probe, cond) is None:
                return False
            s = st
            for i in range(self.unroll + 1):
                cond = self.eval(cn, s, fr)
                k = self.known(s, cond)
                if k is None:
                    return False
                if not k:
                    return True
                sink = {"brk": [], "cont": []}
                fr.sinks.append(sink)
                b = len(s.path)
                if var is not None:
                    s = self.exec(var, s, fr)
                s = self.exec(body, s, fr) if s is not None else None
                fr.sinks.pop()
                s, _ = self.merge([(s, None)] + [(x, None) for x in sink["cont"]], b, ("u", i) + self.nk(n, fr))
                if s is None:
                    return True
                if inc is not None:
                    self.eval(inc, s, fr)
                    if s.dead:
                        return True
            return False
        finally:
            self.quiet -= 1
            self.throw_sinks.pop()
            del fr.returns[nr:]

    def _unroll(self, n, st, fr, cn, body, inc, cv, var, dowhile, base, tag, strict=False):
        s = st
        out = []
        for i in range(self.unroll + 2):
            cond = self.eval(cn, s, fr) if cn is not None else TRUE
            if s.dead:
                break
            k = self.decide(s, cond)
            if strict and (k is None or i > self.unroll):
                return False
            if not k:
                out.append((s, None))
                break
            sink = {"brk": [], "cont": []}
            fr.sinks.append(sink)
            b = len(s.path)
            if var is not None:
                s = self.exec(var, s, fr)
            s = self.exec(body, s, fr) if s is not None else None
            fr.sinks.pop()
            out += [(x, None) for x in sink["brk"]]
            s, _ = self.merge([(s, None)] + [(x, None) for x in sink["cont"]], b, ("u", i) + self.nk(n, fr))
            if s is None:
                break
            if inc is not None:
                self.eval(inc, s, fr)
                if s.dead:
                    break
        r, _ = self.merge(out, base, tag)
        return r

    # ---- expressions ------------------------------------------------------------------------
    def eval(self, n, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("more than %d steps" % self.budget)
        a = n.a
        if not a.get("lv"):
            if "cv" in a:
                if not a.get("f") or True:
                    return c(int(a["cv"]))
            if "cf" in a:
                return c(float(a["cf"]))
        m = getattr(self, "e_" + n.k, None)
        if m is not None:
            return m(n, st, fr)
        return self.e_default(n, st, fr)

    def e_default(self, n, st, fr):
        for x in n.c:
            if x is not None and x.k != "Var":
                self.eval(x, st, fr)
        return self.unknown(n, st, fr)

    def unknown(self, n, st, fr, tag="hv"):
        v = self.fresh(n, fr, tag)
        if n.t >= 0 and not self.is_val(n.t) and not n.get("lv") and self.P.ty(n.t)["k"] != "void":
            a = self.tmp(n, fr)
            self.kill_sub(st, a)
            st.store[a] = v
            return a
        if n.get("lv"):
            return v
        if n.t >= 0:
            tm.settype(v, self.tc(n.t))
        return v

    def rec_result(self, n, st, fr, v, tag=""):
        a = self.tmp(n, fr, tag)
        self.kill_sub(st, a)
        st.store[a] = v
        return a

    def e_IntegerLiteral(self, n, st, fr):
        return c(int(n.get("v")))

    e_CharacterLiteral = e_CXXBoolLiteralExpr = e_CXXNoexceptExpr = e_IntegerLiteral

    def e_FloatingLiteral(self, n, st, fr):
        return c(float(n.get("v")))

    def e_StringLiteral(self, n, st, fr):
        return mk("str", n.get("v") or "")

    def e_CXXNullPtrLiteralExpr(self, n, st, fr):
        return NULL

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n, st, fr):
        if self.is_val(n.t):
            return ZERO
        return self.rec_result(n, st, fr, mk("zero"))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThisExpr(self, n, st, fr):
        return fr.this

    def e_SourceLocExpr(self, n, st, fr):
        return mk("str", "loc")

    def e_PredefinedExpr(self, n, st, fr):
        return mk("str", "func")

    def e_CXXDefaultInitExpr(self, n, st, fr):
        return self.eval(n.c[0], st, fr) if n.c and n.c[0] is not None else self.unknown(n, st, fr)

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        return self.unknown(n, st, fr)

    def gconst(self, n, d):
        """Remember the value of a constant of number type."""
        if n.get("cv") is not None:
            self.gvals[d] = c(int(n.get("cv")))
        elif n.get("cf") is not None:
            self.gvals[d] = c(float(n.get("cf")))

    def e_DeclRefExpr(self, n, st, fr):
        dk = n.get("dk")
        d = n.get("d")
        if dk in ("fn",):
            return mk("fnref", d)
        if dk == "enum":
            return self.unknown(n, st, fr)
        a = self.var_addr(d, fr)
        if a is not None:
            return a
        tm.NAMES.setdefault(d, n.get("n"))
        if dk in ("global", "slocal"):
            self.gconst(n, d)
            return mk("glob", d)
        # a variable of an enclosing function we did not see
        return mk("var", d, 0)

    def e_MemberExpr(self, n, st, fr):
        b = n.c[0]
        v = self.eval(b, st, fr)
        dk = n.get("dk")
        if dk == "fn":
            return v
        if v is None:
            v = self.unknown(b, st, fr)
        if n.get("arrow") and not self.quiet and b.k != "CXXThisExpr":
            self.H.on_deref(self, st, v, n, fr, "->")
        if dk in ("global",):
            self.gconst(n, n.get("d"))
            return mk("glob", n.get("d"))
        d = n.get("d")
        nm = n.get("n", "")
        bt = self.P.rec_of_type(b.t)[1]
        if nm == "":
            return v  # anonymous union inside
        if v.op == "mapent":
            return mk("mapval", *v.a) if nm == "second" else mk("mapkey", *v.a)
        if self.is_glm(b, n):
            i = "xyzw".find(nm)
            if i < 0:
                i = "rgba".find(nm)
            if i < 0:
                i = "stpq".find(nm)
            if i >= 0:
                return tm.el(v, c(i))
        return self.field(st, v, d)

    def field(self, st, v, d):
        """Address of field d of the object at v (a reference field denotes what it refers to)."""
        a = tm.fld(v, d)
        fo = self.P.field_of.get(d)
        if fo is not None and self.P.ty(fo[1]["t"])["k"] == "ref":
            x = self.ref_field(v, d, fo[1])
            if x is not None:
                return x
            x = st.store.get(a)
            if x is not None:
                return x
            return mk("ld", a, 0)
        return a

    def ref_field(self, base, d, fd):
        """`float& x = width;` as an in-class initialiser: the same location under another name."""
        init = fd.get("init")
        if isinstance(init, dict):
            x = init
            while x and x.get("k") in ("ImplicitCastExpr", "CXXDefaultInitExpr", "ParenExpr") and x.get("c"):
                x = x["c"][0]
            if x and x.get("k") == "MemberExpr" and x.get("dk") == "field":
                return tm.fld(base, x["d"])
        return None

    def is_glm(self, b, n):
        t = self.P.rec_of_type(b.t)[1]
        if t["k"] == "rec" and t["key"] == "glm::vec":
            return True
        if t["k"] == "rec" and t["key"].startswith("glm::"):
            return t["key"].startswith(("glm::vec", "glm::qua"))
        # inside the anonymous unions of glm::vec
        return b.k == "MemberExpr" and b.get("n", "") == ""

    def e_ArraySubscriptExpr(self, n, st, fr):
        x, y = n.c[0], n.c[1]
        if self.P.ty(x.t)["k"] == "int":
            x, y = y, x
        b = self.eval(x, st, fr)
        i = self.eval(y, st, fr)
        if not self.quiet:
            self.H.on_index(self, st, b, i, n, fr, "[]")
        return tm.padd(b, i)

    def dynamic_cast(self, v, t, target):
        """v if its dynamic type is known and derives from the target, null if it does not, otherwise a term."""
        rec = self.dyn.get(v)
        to = self.P.ty(target).get("rec") if target is not None and target >= 0 else None
        if rec is not None and to is not None and v.op in ("new", "made"):
            if rec == to or to in self.P.bases(rec):
                return v
            return NULL
        return tm.settype(mk("dyncast", v, t), PT)

    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n.get("ck")
        x = n.c[0]
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "ConstructorConversion",
                  "UserDefinedConversion", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BitCast", "Dynamic", "AtomicToNonAtomic"):
            v = self.eval(x, st, fr)
            if ck == "Dynamic":
                t = self.P.ty(self.P.deref_type(n.t))
                return self.dynamic_cast(v, n.t, t["p"] if t["k"] == "ptr" else self.P.deref_type(n.t))
            return v
        if ck == "LValueToRValue":
            a = self.eval(x, st, fr)
            if a is None:
                return self.unknown(n, st, fr)
            if not self.is_val(n.t):
                return a
            return self.load(st, a, self.tc(n.t))
        if ck == "ArrayToPointerDecay":
            a = self.eval(x, st, fr)
            if a.op == "str":
                return a
            return tm.el(a, ZERO)
        if ck in ("NullToPointer", "NullToMemberPointer"):
            self.eval(x, st, fr)
            return NULL
        if ck == "ToVoid":
            self.eval(x, st, fr)
            return None
        v = self.eval(x, st, fr)
        if v is None:
            return self.unknown(n, st, fr)
        tx, ty = self.tc(x.t), self.tc(n.t)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return tm.not_(tm.eq(tx if ck[0] == "F" else I64, v, ZERO))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return tm.not_(tm.eq(PT, v, NULL))
        return self.cast(ck, v, tx, ty, n, st, fr)

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_CXXDynamicCastExpr = e_BuiltinBitCastExpr = e_ImplicitCastExpr

    def cast(self, ck, v, tx, ty, n, st, fr):
        if ty is None:
            return v
        if ck == "FloatingCast":
            return v
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "BooleanToSignedIntegral"):
            if isc(v):
                if ck == "FloatingToIntegral":
                    return c(int(v.a[0]))
                return c(tm.wrapc(ty, v.a[0])) if ty[0] in "iu" else v
            if ck == "IntegralToFloating":
                return tm.settype(mk("cast", FT, v), FT)
            if tx == ty:
                return v
            if tx and ty[0] in "iu" and tx[0] in "iub":
                # widening keeps the value
                if tx[0] == "b" or (tx[0] == "u" and tx[1] < ty[1]) or (tx[0] == ty[0] and tx[1] <= ty[1]):
                    r = mk("cast", ty, v)
                    tm.settype(v, tx)
                    return tm.settype(r, ty)
            tm.settype(v, tx)
            r = mk("cast", ty, v) if ck != "FloatingToIntegral" else mk("f2i", ty, v)
            if not self.quiet:
                self.H.on_arith(self, st, r, n, fr)
            return tm.settype(r, ty)
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return mk("cast", ty, v)
        return v

    def e_UnaryOperator(self, n, st, fr):
        op = n.get("op")
        x = n.c[0]
        if op in ("++", "--"):
            a = self.eval(x, st, fr)
            ty = self.tc(x.t)
            v = self.load(st, a, ty)
            if ty and ty[0] == "p":
                w = tm.padd(v, c(1 if op == "++" else -1))
            else:
                w = tm.add(ty, v, c(1)) if op == "++" else tm.sub(ty, v, c(1))
                tm.settype(w, ty)
            self.store(st, a, w, n, fr)
            return v if n.get("post") else a
        if op == "&":
            return self.eval(x, st, fr)
        if op == "*":
            p = self.eval(x, st, fr)
            if not self.quiet:
                self.H.on_deref(self, st, p, n, fr, "*")
            return p
        v = self.eval(x, st, fr)
        if v is None:
            return self.unknown(n, st, fr)
        ty = self.tc(n.t)
        if op == "!":
            return tm.not_(v)
        if op == "-":
            return tm.settype(tm.neg(ty, v), ty)
        if op in ("+", "__extension__"):
            return v
        if op == "~":
            return tm.settype(mk("~", ty, v), ty)
        return self.unknown(n, st, fr)

    def arith(self, op, ty, x, y, n=None, st=None, fr=None):
        if ty and ty[0] == "f":
            ty = FT
        if op == "+":
            r = tm.add(ty, x, y)
        elif op == "-":
            r = tm.sub(ty, x, y)
        elif op == "*":
            r = tm.mul(ty, x, y)
        elif op == "/":
            r = tm.div(ty, x, y)
        elif op == "%":
            r = tm.mod(ty, x, y)
        else:
            r = tm.bitop(op, ty, x, y)
        tm.settype(r, ty)
        if n is not None and not self.quiet:
            self.H.on_arith(self, st, r, n, fr)
        return r

    def compare(self, op, ty, x, y):
        if ty and ty[0] == "f":
            ty = FT
        if op == "==":
            return tm.eq(ty, x, y)
        if op == "!=":
            return tm.not_(tm.eq(ty, x, y))
        if op == "<":
            return tm.lt(ty, x, y)
        if op == ">":
            return tm.lt(ty, y, x)
        if op == "<=":
            return tm.le(ty, x, y)
        return tm.le(ty, y, x)

    def e_BinaryOperator(self, n, st, fr):
        op = n.get("op")
        L, R = n.c[0], n.c[1]
        if op == "=":
            a = None
            if not self.is_val(L.t):
                v = self.eval(R, st, fr)
                a = self.eval(L, st, fr)
                self.copy_obj(st, a, v, L.t, n, fr)
                return a
            v = self.eval(R, st, fr)
            a = self.eval(L, st, fr)
            if st.dead:
                return a
            if v is None:
                v = self.unknown(R, st, fr)
            self.store(st, a, v, n, fr, tcode=self.tc(L.t))
            return a
        if op in ("&&", "||"):
            x = self.eval(L, st, fr)
            if st.dead:
                return FALSE
            k = self.decide(st, x)
            if k is not None and k == (op == "||"):
                return TRUE if op == "||" else FALSE
            if self.split is not None and k is not None:
                y = self.eval(R, st, fr)
                return y if y is not None else self.unknown(R, st, fr)
            s2 = st.copy()
            self.assume(s2, x, op == "&&")
            if s2.dead:
                return x
            n0 = s2.store
            y = self.eval(R, s2, fr)
            if y is None:
                y = self.unknown(R, st, fr)
            if s2.store != st.store or s2.clob != st.clob:
                if k is not None:
                    st.become(s2)
                else:
                    s1 = st.copy()
                    self.assume(s1, x, op != "&&")
                    base = len(st.path)
                    a, b = (s2, s1) if op == "&&" else (s1, s2)
                    a.path = st.path + ((x, True),)
                    b.path = st.path + ((x, False),)
                    m, _ = self.merge([(a, None), (b, None)], base, ("sc",) + self.nk(n, fr))
                    if m is not None:
                        st.become(m)
            return tm.and_(x, y) if op == "&&" else tm.or_(x, y)
        if op == ",":
            self.eval(L, st, fr)
            return self.eval(R, st, fr)
        x = self.eval(L, st, fr)
        y = self.eval(R, st, fr)
        if x is None or y is None:
            return self.unknown(n, st, fr)
        tl, tr = self.tc(L.t), self.tc(R.t)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, tl if tl and tl[0] != "p" or not tr else (tl or tr), x, y)
        if op == "<=>":
            return self.unknown(n, st, fr)
        ty = self.tc(n.t)
        if ty == PT:
            if tl == PT and op in "+-":
                return tm.padd(x, y, 1 if op == "+" else -1)
            if tr == PT:
                return tm.padd(y, x)
        if tl == PT and tr == PT and op == "-":
            s = tm._elsplit(x, y)
            return tm.sub(I64, s[0], s[1]) if s else tm.sub(I64, x, y)
        return self.arith(op, ty, x, y, n, st, fr)

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n.get("op")[:-1]
        L, R = n.c[0], n.c[1]
        y = self.eval(R, st, fr)
        a = self.eval(L, st, fr)
        tl, tr = self.tc(L.t), self.tc(R.t)
        x = self.load(st, a, tl)
        if tl == PT:
            v = tm.padd(x, y, 1 if op == "+" else -1)
        elif tl and tr and tl[0] in "iu" and tr[0] == "f":
            v = mk("f2i", tl, self.arith(op, FT, mk("cast", FT, x), y))
        elif tl and tr and tl[0] in "iub" and tr[0] in "iu" and tl != tr and (tl[1:] or (8,))[0] < 32:
            v = mk("cast", tl, self.arith(op, tr, mk("cast", tr, x), y, n, st, fr))
            tm.settype(v, tl)
        else:
            v = self.arith(op, tl, x, y, n, st, fr)
        self.store(st, a, v, n, fr, tcode=tl)
        return a

    def e_ConditionalOperator(self, n, st, fr):
        cond = self.eval(n.c[0], st, fr)
        if st.dead:
            return cond
        base = len(st.path)
        a, b = self.branch(st.copy(), cond)
        if a is not None:
            x = self.eval(n.c[1], a, fr)
        if b is not None:
            y = self.eval(n.c[2], b, fr)
        isv = n.get("lv") or self.is_val(n.t)
        if a is None or a.dead:
            if b is None:
                st.dead = True
                return FALSE
            st.become(b)
            return y
        if b is None or b.dead:
            st.become(a)
            return x
        if x is None or y is None:
            m, _ = self.merge([(a, None), (b, None)], base, ("co",) + self.nk(n, fr))
            st.become(m)
            return None
        if isv:
            m, v = self.merge([(a, x), (b, y)], base, ("co",) + self.nk(n, fr))
            st.become(m)
            return v
        t = self.tmp(n, fr)
        for s, z in ((a, x), (b, y)):
            self.kill_sub(s, t)
            s.store.pop(t, None)
            self.copy_obj(s, t, z, n.t, None, fr)
        m, _ = self.merge([(a, None), (b, None)], base, ("co",) + self.nk(n, fr))
        st.become(m)
        return t

    def e_InitListExpr(self, n, st, fr):
        if self.is_val(n.t):
            if not n.c:
                return ZERO
            return self.eval(n.c[0], st, fr)
        a = self.tmp(n, fr)
        self.kill_sub(st, a)
        st.store.pop(a, None)
        self.init_list(n, a, n.t, st, fr)
        return a

    def e_CXXStdInitializerListExpr(self, n, st, fr):
        x = n.c[0]
        v = self.eval(x, st, fr)
        a = self.tmp(n, fr)
        self.kill_sub(st, a)
        st.store[a] = self.fresh(n, fr)
        try:
            sz, et = self.arr_n(x.t)
        except Exception:
            return a
        st.store[tm.el(a, "$size")] = c(sz)
        if sz <= 32:
            for i in range(sz):
                self.copy_obj(st, tm.el(a, c(i)), tm.el(v, c(i)), et)
        return a

    def e_CXXConstructExpr(self, n, st, fr):
        f = self.P.fns.get(n.get("f"))
        if n.get("elide") or (f is not None and f.sp in ("copy", "move") and n.c and n.c[0] is not None and not n.c[0].get("lv") and (f.ext or f.body is None)):
            if n.c and n.c[0] is not None:
                return self.eval(n.c[0], st, fr)
        a = self.tmp(n, fr)
        self.kill_sub(st, a)
        st.store.pop(a, None)
        self.construct(n, a, st, fr)
        return a

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXThrowExpr(self, n, st, fr):
        for x in n.c:
            if x is not None:
                self.eval(x, st, fr)
        if st.dead:
            return None
        self.throw(n, st, fr)
        return None

    def throw(self, n, st, fr):
        if not self.quiet:
            self.H.on_throw(self, st, n, fr)
        self.throw_sinks[-1].append((st.copy(), n, fr))
        st.dead = True

    def e_CXXNewExpr(self, n, st, fr):
        v = mk("new", fr.fn.id, n.i, fr.id)
        at = n.get("at")
        t = self.P.ty(at)
        if t["k"] == "rec":
            self.dyn[v] = t["rec"]
        i = n.role("init")
        if self.new_hook is not None and t["k"] == "rec" and (i is None or i.k == "CXXConstructExpr"):
            return self.new_hook(self, n, i, t["rec"], st, fr)
        if i is not None:
            self.init(i, v, at, st, fr)
        return v

    def e_CXXDeleteExpr(self, n, st, fr):
        self.eval(n.c[0], st, fr)
        return None

    def e_LambdaExpr(self, n, st, fr):
        a = mk("lam", fr.fn.id, n.i, fr.id)
        caps = {}
        for i, cp in enumerate(n.get("cap", ())):
            if "d" in cp:
                src = self.var_addr(cp["d"], fr)
                if src is None:
                    src = mk("var", cp["d"], 0)
                if cp.get("ref"):
                    caps[cp["d"]] = src
                else:
                    dst = tm.fld(a, cp["d"])
                    x = n.c[i] if i < len(n.c) else None
                    if x is not None:
                        self.init(x, dst, cp["t"], st, fr)
                    else:
                        self.copy_obj(st, dst, src, cp["t"])
                    caps[cp["d"]] = dst
        self.lams[a] = (n, caps, fr)
        return a

    # ---- construction and calls -------------------------------------------------------------
    def construct(self, n, a, st, fr):
        f = self.P.fns.get(n.get("f"))
        kind = self.kind(n.t)
        if f is None:
            for x in n.c:
                if x is not None:
                    self.eval(x, st, fr)
            st.store[a] = self.fresh(n, fr)
            return
        if f.sp in ("copy", "move") and (f.ext or f.body is None) and len(n.c) >= 1:
            src = self.eval(n.c[0], st, fr)
            if st.dead:
                return
            if kind == "lambda":
                self.lams[a] = self.lams.get(src, (None, {}, fr))
                if self.lams[a][0] is None:
                    del self.lams[a]
                return
            self.copy_obj(st, a, src, n.t, n, fr)
            return
        if f.ext:
            m = CTORS.get(f.clskey)
            if m is not None:
                args = [self.arg(x, p, st, fr) for x, p in self.zip_args(n.c, f)]
                if st.dead:
                    return
                m(self, n, a, f, args, st, fr)
                return
            args = [self.arg(x, p, st, fr) for x, p in self.zip_args(n.c, f)]
            if st.dead:
                return
            if not self.quiet:
                self.H.on_call(self, st, f, n, a, args, fr)
            self.kill_sub(st, a)
            if len(args) == 0 and f.clskey.startswith("std::"):
                st.store[a] = mk("empty", f.clskey)
            else:
                st.store[a] = self.fresh(n, fr, "ctor")
                vals = self.pure_vals(args, f, st)
                if vals is not None and f.clskey.startswith("std::basic_string"):
                    st.store[a] = tm.call(f.key, *vals)
            if kind == "seq" and len(args) == 0:
                st.store[tm.el(a, "$size")] = ZERO
            return
        args = [self.arg(x, p, st, fr) for x, p in self.zip_args(n.c, f)]
        if st.dead:
            return
        t = self.P.ty(self.P.deref_type(n.t))
        if t["k"] == "rec" and a.op in ("var", "tmp", "new"):
            old = self.dyn.get(a)
            if old is None or t["rec"] not in self.P.bases(old):  # (a base sub-object has the same address)
                self.dyn[a] = t["rec"]
        if not self.quiet:
            self.H.on_call(self, st, f, n, a, args, fr)
        if kind == "repo" and f.sp == "default" and f.body is None and not f.inits:
            r = self.P.records[t["rec"]]
            self.default_fields(r, a, st, fr, n)
            return
        if not self.can_inline(f, fr):
            self.kill_sub(st, a)
            st.store[a] = self.fresh(n, fr, "ctor")
            return
        self.invoke(f, a, args, n, st, fr)

    def default_fields(self, r, a, st, fr, n):
        for fd in r.get("fields", ()):
            x = fd.get("init")
            addr = tm.fld(a, fd["d"])
            if x is not None and self.is_val(fd["t"]):
                from .facts import Node
                cache = fd.setdefault("_node", None)
                if cache is None:
                    import copy as _c
                    cache = fd["_node"] = Node(_c.deepcopy(x), fr.fn, None)
                self.init(cache, addr, fd["t"], st, fr)
            elif self.kind(fd["t"]) == "sptr":
                st.store[addr] = NULL

    def zip_args(self, nodes, f):
        ps = f.params
        out = []
        for i, x in enumerate(nodes):
            if x is None:
                continue
            out.append((x, ps[i]["t"] if i < len(ps) else None))
        return out

    def arg(self, x, pt, st, fr):
        """Evaluates an argument for a parameter of type pt: an address for references and objects."""
        if pt is None:
            return self.eval(x, st, fr)
        if self.P.ty(pt)["k"] == "ref":
            return self.ref_arg(x, st, fr)
        v = self.eval(x, st, fr)
        if v is None:
            return self.unknown(x, st, fr)
        if not self.is_val(pt):
            # by value: a copy
            if x.get("lv"):
                t = self.tmp(x, fr, "arg")
                self.kill_sub(st, t)
                st.store.pop(t, None)
                self.copy_obj(st, t, v, pt)
                return t
        return v

    def ref_arg(self, x, st, fr):
        v = self.eval(x, st, fr)
        if v is None:
            return self.unknown(x, st, fr)
        if x.get("lv") or not self.is_val(x.t):
            return v
        if self.P.ty(x.t)["k"] == "other" and v.op == "fnref":
            return v
        t = self.tmp(x, fr, "mat")
        if self.has_sub(st, t):
            self.kill_sub(st, t)
        st.store[t] = v
        return t

    def can_inline(self, f, fr):
        if f.ext or not self.inline_ok(f):
            return False
        if f.body is None and not f.inits:
            return False
        if fr.depth >= self.maxdepth:
            return False
        x, k = fr, 0
        while x is not None:
            if x.fn is f:
                k += 1
                if k > self.recursion:
                    return False
            x = x.parent
        return True

    def invoke(self, f, this, args, n, st, fr, lam=None):
        """Inlines f. Mutates st to the state after the call and returns the result."""
        fid = self.frame_id((self.nk(n, fr), f.id))
        g = Frame(f, fid, fr, this)
        g.site = n
        g.lam = lam
        self.visited.add(f.id)
        for i, p in enumerate(f.params):
            tm.NAMES[p["d"]] = p["n"] or "arg"
            if i < len(args) and args[i] is not None:
                v = args[i]
                if self.P.ty(p["t"])["k"] == "ref" or not self.is_val(p["t"]):
                    g.env[p["d"]] = v
                else:
                    a = mk("var", p["d"], fid)
                    g.env[p["d"]] = a
                    st.store[a] = v
            else:
                g.env[p["d"]] = mk("var", p["d"], fid)
        base = len(st.path)
        s = self.body(f, st.copy(), g)
        items = list(g.returns)
        if s is not None:
            items.append((s, None))
        if not items:
            st.dead = True
            return self.fresh(n, fr, "noret")
        m, v = self.merge(items, base, ("call",) + self.nk(n, fr))
        if m is None:
            st.dead = True
            return self.fresh(n, fr, "noret")
        rt = self.P.ty(f.ret)
        if v is not None and rt["k"] not in ("ref", "void") and not self.is_val(f.ret):
            t = self.tmp(n, fr, "ret")
            self.kill_sub(m, t)
            m.store.pop(t, None)
            if v.op == "lam":
                v2 = v
            else:
                self.copy_obj(m, t, v, f.ret)
                v2 = t
            v = v2
        # forget the callee's locals
        for k in LOCALS.get(fid, ()):
            if k in m.store:
                del m.store[k]
        st.become(m)
        return v

    def of_frame(self, r, fid):
        return (r.op == "var" and r.a[1] == fid) or (r.op == "tmp" and r.a[2] == fid and r.a[3] != "keep")

    def e_CallExpr(self, n, st, fr):
        return self.do_call(n, st, fr)

    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_UserDefinedLiteral = e_CallExpr

    def do_call(self, n, st, fr):
        f = self.P.fns.get(n.get("f"))
        callee = n.c[0]
        argn = n.c[1:]
        this = None
        virt_ok = True
        if f is None:
            # through a pointer, a member pointer or a std::function-like object
            cv = self.eval(callee, st, fr)
            if cv is not None and cv.op == "fnref":
                f = self.P.fns.get(cv.a[0])
            if cv is not None and f is None:
                v2 = self.subst(st, cv)
                if v2.op == "fnref":
                    f = self.P.fns.get(v2.a[0])
            if f is None:
                args = [self.ref_arg(x, st, fr) if x.get("lv") else self.eval(x, st, fr) for x in argn if x is not None]
                if st.dead:
                    return FALSE
                if not self.quiet:
                    self.H.on_call(self, st, None, n, None, args, fr)
                self.clobber_args(args, None, argn, st, n, fr)
                return self.unknown(n, st, fr)
        if f.key == "std::move" and f.ext and len(argn) == 1:
            return self.ref_arg(argn[0], st, fr)
        member = f.cls is not None and not f.get("static") and f.sp not in ("ctor", "default", "copy", "move")
        objnode = None
        if member:
            if n.k == "CXXOperatorCallExpr":
                objnode = argn[0]
                argn = argn[1:]
                this = self.eval(objnode, st, fr)
                if this is not None and not objnode.get("lv") and self.is_val(objnode.t):
                    this = self.ref_arg(objnode, st, fr)
            elif callee.k == "MemberExpr":
                objnode = callee.c[0]
                this = self.eval(objnode, st, fr)
                if callee.get("arrow") and not self.quiet and objnode.k != "CXXThisExpr":
                    self.H.on_deref(self, st, this, callee, fr, "->")
            else:
                this = self.eval(callee, st, fr)
            if this is None:
                this = self.fresh(n, fr, "obj")
        elif n.k != "CXXOperatorCallExpr" and callee.k == "MemberExpr":
            self.eval(callee.c[0], st, fr)
        if st.dead:
            return FALSE
        # virtual dispatch
        if f.get("virtual") and not n.get("nonvirt"):
            g = self.devirt(f, this, objnode, fr)
            if g is not None:
                f = g
        args = [self.arg(x, p, st, fr) for x, p in self.zip_args(argn, f)]
        if st.dead:
            return FALSE
        if not self.quiet:
            self.H.on_call(self, st, f, n, this, args, fr)
        r = self.apply(f, this, args, n, argn, objnode, st, fr)
        if f.get("noreturn"):
            if not self.quiet:
                self.H.on_throw(self, st, n, fr)
            if f.key in ("std::rethrow_exception",):
                self.throw_sinks[-1].append((st.copy(), n, fr))
            st.dead = True
        return r

    def devirt(self, f, this, objnode, fr):
        rid = self.dyn.get(this)
        if rid is not None:
            x = self.find_method(rid, f)
            if x is not None:
                return x
        if f.id not in self.P.overriders and not f.get("pure"):
            return f
        ov = [g for g in self.P.targets(f.id) if not g.get("pure") and g.has_body]
        if len(ov) == 1 and f.get("pure"):
            return None
        return None

    def find_method(self, rid, f):
        r = self.P.records.get(rid)
        if r is None:
            return None
        for m in r.get("methods", ()):
            g = self.P.fns.get(m)
            if g is not None and (g is f or f.id in self.all_over(g)):
                return g
        for b in r.get("bases", ()):
            x = self.find_method(b["id"], f)
            if x is not None:
                return x
        return None

    def all_over(self, g):
        out = set()
        st = [g]
        while st:
            x = st.pop()
            for o in x.get("over", ()) or ():
                if o not in out:
                    out.add(o)
                    y = self.P.fns.get(o)
                    if y is not None:
                        st.append(y)
        return out

    def apply(self, f, this, args, n, argn, objnode, st, fr):
        m = self.models.get(f.key)
        if m is not None and (f.ext or m[1]):
            r = m[0](self, n, f, this, args, argn, objnode, st, fr)
            if r is not NotImplemented:
                return r
        if f.sp in ("copyassign", "moveassign") and (f.ext or f.body is None):
            if this is not None and args:
                ti = objnode.t if objnode is not None else -1
                if objnode is not None and objnode.t >= 0 and args[0].op != "zero":
                    self.copy_obj(st, this, args[0], self.obj_type(objnode), n, fr)
                    return this
        virt_opaque = f.get("virtual") and not n.get("nonvirt") and self.dyn.get(this) is None and (
            f.id in self.P.overriders or f.get("pure"))
        if not f.ext and not virt_opaque and self.can_inline(f, fr):
            lam = None
            if f.sp == "lambda":
                info = self.lams.get(this)
                if info is not None:
                    return self.call_lambda(this, f, args, n, st, fr)
            return self.invoke(f, this, args, n, st, fr)
        if f.sp == "lambda":
            info = self.lams.get(this)
            if info is not None and self.can_inline(f, fr):
                return self.call_lambda(this, f, args, n, st, fr)
        return self.opaque_call(f, this, args, n, argn, st, fr)

    def obj_type(self, objnode):
        t = self.P.ty(self.P.deref_type(objnode.t))
        if t["k"] == "ptr":
            return t["p"]
        return objnode.t

    def call_lambda(self, lam, f, args, n, st, fr):
        node, caps, home = self.lams[lam]
        fid = self.frame_id((self.nk(n, fr), f.id))
        g = self.invoke_env(f, home.this, args, n, st, fr, caps, home)
        return g

    def invoke_env(self, f, this, args, n, st, fr, caps, home):
        # like invoke, with the captured variables in scope
        holder = Frame(home.fn, home.id, home.parent, this)
        holder.env = dict(caps)
        holder.lam = home
        return self.invoke(f, this, args, n, st, fr, lam=holder)

    def pure_vals(self, args, f, st):
        out = []
        for i, v in enumerate(args):
            if v is None:
                return None
            if i < len(f.params):
                pt = f.params[i]["t"]
                t = self.P.ty(pt)
                if t["k"] == "ref":
                    q = self.P.ty(t["p"])
                    if not q.get("const") and not t.get("rv"):
                        return None
                    out.append(self.obj_value(st, v, t["p"]))
                elif t["k"] == "ptr":
                    q = self.P.ty(t["p"])
                    if q["k"] not in ("other",) and not q.get("const"):
                        return None
                    if v.op == "str":
                        out.append(v)
                    else:
                        out.append(self.load(st, v) if v.op not in ("c",) else v)
                elif not self.is_val(pt):
                    out.append(self.obj_value(st, v, pt))
                else:
                    out.append(v)
            else:
                out.append(v)
        return out

    def obj_value(self, st, a, ti):
        """One term for the current contents of the object at a."""
        k = self.kind(ti)
        if a.op in ("str", "fnref", "lam"):
            return a
        if k in ("scalar", "sptr", "iter"):
            return self.load(st, a, self.tc(ti))
        if k == "vec":
            return mk("agg", tuple((c(i), self.load(st, tm.el(a, c(i)), FT)) for i in range(self.vec_n(ti))))
        if k == "arr":
            n, et = self.arr_n(ti)
            if n <= 16 and isinstance(et, int):
                return mk("agg", tuple((c(i), self.obj_value(st, tm.el(a, c(i)), et)) for i in range(n)))
        if k == "mat":
            C, R = self.mat_cr(ti)
            return mk("agg", tuple((c(i), mk("agg", tuple((c(j), self.load(st, tm.el(tm.el(a, c(i)), c(j)), FT)) for j in range(R)))) for i in range(C)))
        if k == "repo":
            r = self.P.records[self.P.ty(self.P.deref_type(ti))["rec"]]
            fs = []
            self.rec_values(st, a, r, fs, 0)
            if fs:
                return mk("agg", tuple(fs))
        return self.load(st, a)

    def rec_values(self, st, a, r, out, depth):
        for b in r.get("bases", ()):
            br = self.P.records.get(b["id"])
            if br is not None:
                self.rec_values(st, a, br, out, depth)
        for fd in r.get("fields", ()):
            if self.P.ty(fd["t"])["k"] == "ref":
                continue
            out.append((fd["d"], self.obj_value(st, tm.fld(a, fd["d"]), fd["t"])))

    def clobber_args(self, args, f, argn, st, n, fr):
        for i, v in enumerate(args):
            if v is None:
                continue
            pt = f.params[i]["t"] if f is not None and i < len(f.params) else None
            if pt is not None:
                t = self.P.ty(pt)
                if t["k"] == "ref":
                    q = self.P.ty(t["p"])
                    if not q.get("const"):
                        if t.get("rv") and f is not None and f.ext and False:
                            continue
                        self.clobber(st, v, n, fr)
                    self.escape_lambda(v, n, st, fr)
                elif t["k"] == "ptr":
                    q = self.P.ty(t["p"])
                    if not q.get("const") and q["k"] not in ("other",):
                        self.clobber_ptr(st, v, n, fr)
                else:
                    self.escape_lambda(v, n, st, fr)
            elif i < len(argn) and argn[i] is not None:
                t = self.P.ty(argn[i].t)
                if argn[i].get("lv") and not t.get("const"):
                    self.clobber(st, v, n, fr)
                elif t["k"] == "ptr" and not self.P.ty(t["p"]).get("const") and self.P.ty(t["p"])["k"] != "other":
                    self.clobber_ptr(st, v, n, fr)

    def clobber_ptr(self, st, v, n, fr):
        if v.op in ("c", "str", "fnref", "hv", "undef"):
            return
        if v.op == "ite":
            self.clobber_ptr(st, v.a[1], n, fr)
            self.clobber_ptr(st, v.a[2], n, fr)
            return
        self.clobber(st, v, n, fr)

    def escape_lambda(self, v, n, st, fr):
        """A closure handed to code we do not see may be run any number of times."""
        info = self.lams.get(v)
        if info is None:
            return
        self.run_lambda_unknown(v, n, st, fr)

    def run_lambda_unknown(self, lam, n, st, fr, mkargs=None):
        node, caps, home = self.lams[lam]
        ids = node.get("lams") or []
        for lid in ids:
            f = self.P.fns.get(lid)
            if f is None or f.ext or not self.can_inline(f, fr):
                continue
            changed, clobs = {}, set()

            def once(s):
                args = mkargs(f, s) if mkargs else None
                if args is None:
                    args = []
                    for i, p in enumerate(f.params):
                        if self.P.ty(p["t"])["k"] == "ref" or not self.is_val(p["t"]):
                            args.append(mk("tmp", node.fn.id, node.i, fr.id, "arg%d" % i))
                        else:
                            args.append(tm.settype(mk("hv", node.fn.id, node.i, fr.id, "arg%d" % i), self.tc(p["t"])))
                self.invoke_env(f, home.this, args, node, s, fr, caps, home)
            for rnd in range(5):
                h = self.havoc(st, node, fr, changed, clobs)
                h0 = h.copy()
                self.quiet += 1
                self.throw_sinks.append([])
                try:
                    once(h)
                finally:
                    self.quiet -= 1
                    self.throw_sinks.pop()
                if h.dead:
                    break
                new = False
                for k in list(h.store):
                    if h.store[k] is not h0.store.get(k) and k not in changed:
                        if h0.store.get(k) is None and tm.root(k).op in ("var", "tmp") and not self.rootlive(st, k):
                            continue
                        changed[k] = None
                        new = True
                for k in h0.store:
                    if k not in h.store and k not in changed:
                        changed[k] = None
                        new = True
                for k in h.clob:
                    if h.clob[k] is not h0.clob.get(k) and k not in clobs:
                        clobs.add(k)
                        new = True
                if not new:
                    break
            h = self.havoc(st, node, fr, changed, clobs)
            keep = h.copy()
            once(h)
            if not h.dead:
                m, _ = self.merge([(keep, None), (h, None)], len(st.path), ("lamu",) + self.nk(node, fr))
                st.become(m)
            else:
                st.become(keep)

    def opaque_call(self, f, this, args, n, argn, st, fr):
        self.opaque[f.key] = self.opaque.get(f.key, 0) + 1
        logger = f.key.startswith("huira::Logger::")
        if not logger and not f.key.startswith(CALM):
            self.nopaque += not self.calm
        pure = None
        if not logger:
            if (f.cls is None or f.const or f.get("static")) and self.P.ty(f.ret)["k"] != "void":
                vals = self.pure_vals(args, f, st)
                if vals is not None and f.key not in IMPURE:
                    if this is not None and f.cls is not None and not f.get("static"):
                        rec = self.P.records.get(f.cls)
                        vals = [self.this_value(st, this, f)] + vals
                    pure = tm.call(f.key, *vals)
            if this is not None and f.cls is not None and not f.const and not f.get("static"):
                self.clobber(st, this, n, fr)
            self.clobber_args(args, f, argn, st, n, fr)
            if this is not None and f.const is False and not f.ext:
                pass
        rt = self.P.ty(f.ret)
        if rt["k"] == "void":
            return None
        v = pure if pure is not None else self.fresh(n, fr, "call")
        if rt["k"] == "ref":
            return v if v.op != "call" else mk("ref", v)
        if self.is_val(f.ret):
            return tm.settype(v, self.tc(f.ret))
        return self.rec_result(n, st, fr, v)

    def this_value(self, st, this, f):
        r = self.P.records.get(f.cls)
        if r is not None and not (r.get("file") or "/").startswith("/") and r.get("t") is not None:
            # identity of the object plus what may have changed in it
            subs = tuple(sorted(((k, v) for k, v in st.store.items() if self.under(k, this)), key=lambda x: x[0].u))
            ver = self.version(st, this)
            return mk("objat", this, subs, ver if ver else 0)
        return self.load(st, this)


IMPURE = {"std::chrono::system_clock::now", "rand", "clock", "time", "getenv"}


class Result:
    def __init__(self, st, val, fr, throws, rets):
        self.st = st
        self.val = val
        self.fr = fr
        self.throws = throws
        self.rets = rets


MODELS = {}
CTORS = {}
from . import models  # noqa: E402,F401  (fills MODELS and CTORS)
