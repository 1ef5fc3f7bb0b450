"""S02: names are unique and lead to their object; the graph's nodes are owned, found and deleted consistently."""
from sa import fx
from sa import terms as tm
from sa.trace import Vocab, same

HEAD = '''#include <array>
#include <vector>
#include <string>
#include <memory>
#include <type_traits>
#include "huira/huira.hpp"
using namespace huira;
using S = RGB;
using Str = std::string;
using N = Node<S>;
using F = FrameNode<S>;
using I = Instance<S>;
using Ch = std::shared_ptr<N>;
using Reg = NameRegistry<N>;
template <std::size_t K> using A = std::array<double, K>;
namespace verif_w {
N* make_frame() { return new F(nullptr); }
N* make_instance(Light<S>* l) { return new I(nullptr, l); }
std::shared_ptr<F> frame() { return std::make_shared<F>(nullptr); }
std::shared_ptr<I> instance(Light<S>* l) { return std::make_shared<I>(nullptr, l); }
template <class P, class C> void under(P& p, const C& c) { c->parent_ = p.get(); p->children_.push_back(c); }
'''
# After an operation on a registry, whom does the name q lead to?
REG = '''
N* i_lookup(const Reg& r, const Str& q) { return r.lookup(q).get(); }
N* r_lookup(const Reg& r, const Str& q) { if (!r.name_registry_.contains(q)) throw std::runtime_error("x"); return r.name_registry_.at(q).get(); }
Str default_name(N& o) { return o.type() + "." + std::to_string(o.id()); }
N* i_add(Reg& r, Ch a, Ch o, const Str& n, const Str& q) { r.objects_.clear(); r.objects_.push_back(a); r.add(o, n); return r.lookup(q).get(); }
N* r_add(Reg& r, Ch a, Ch o, const Str& n, const Str& q)
{
    r.objects_.clear(); r.objects_.push_back(a);
    Str u = n; if (u.empty()) u = default_name(*o);
    u = r.make_unique_name_(u);
    o->name_ = u; r.objects_.push_back(o);
    if (u == q) return o.get();
    return r.lookup(q).get();
}
N* i_set_name(Reg& r, Ch o, const Str& n, const Str& q) { if (!r.name_registry_.contains(o->name_)) return nullptr; r.set_name(o, n); return r.lookup(q).get(); }
N* r_set_name(Reg& r, Ch o, const Str& n, const Str& q)
{
    if (!r.name_registry_.contains(o->name_)) return nullptr;
    if (n == o->name_) return r.lookup(q).get();
    Str u = r.make_unique_name_(n), old = o->name_;
    o->name_ = u;
    if (u == q) return o.get();
    if (old == q) throw std::runtime_error("x");
    return r.lookup(q).get();
}
N* i_remove(Reg& r, Ch a, Ch b, Ch d, Ch o, const Str& q) { if (a == b || a == d || b == d) return nullptr; r.objects_.clear(); r.objects_.push_back(a); r.objects_.push_back(b); r.objects_.push_back(d); r.remove(o); return r.lookup(q).get(); }
N* r_remove(Reg& r, Ch a, Ch b, Ch d, Ch o, const Str& q)
{
    if (a == b || a == d || b == d) return nullptr;
    r.objects_.clear(); r.objects_.push_back(a); r.objects_.push_back(b); r.objects_.push_back(d);
    if (a == o) { r.objects_.clear(); r.objects_.push_back(b); r.objects_.push_back(d); }
    else if (b == o) { r.objects_.clear(); r.objects_.push_back(a); r.objects_.push_back(d); }
    else if (d == o) { r.objects_.clear(); r.objects_.push_back(a); r.objects_.push_back(b); }
    else throw std::runtime_error("x");
    o->scene_owned_ = false;
    if (o->name_ == q) throw std::runtime_error("x");
    return r.lookup(q).get();
}
Str w_unique(const Reg& r, const Str& n) { return r.make_unique_name_(n); }
'''
# building and taking apart the graph
KINDS = [("primitive", "Primitive<S>*"), ("light", "Light<S>*"), ("model", "Model<S>*"), ("unresolved", "UnresolvedObject<S>*"), ("camera", "CameraModel<S>*")]
GRAPH = '''
void i_child(F& n, Ch a) { n.children_.clear(); n.children_.push_back(a); n.new_child(); }
void r_child(F& n, Ch a) { n.children_.clear(); n.children_.push_back(a); auto c = std::make_shared<F>(n.scene_); c->parent_ = &n; n.children_.push_back(c); }
N* i_child_result(F& n) { return n.new_child().lock().get(); }
N* r_child_result(F& n) { auto c = std::make_shared<F>(n.scene_); c->parent_ = &n; n.children_.push_back(c); return c.get(); }
'''
DEL = '''
// a frame with two children a and b, below a parent of its own; registered: whether the scene knows c by name
void i_delete(F& n, Ch a, Ch b, const std::weak_ptr<N>& c) { n.children_.clear(); n.children_.push_back(a); n.children_.push_back(b); n.delete_child(c); }
void r_delete(F& n, Ch a, Ch b, const std::weak_ptr<N>& cw)
{
    Ch c = cw.lock();
    n.children_.clear(); n.children_.push_back(a); n.children_.push_back(b);
    if (!c || c->parent_ != &n) throw std::runtime_error("x");
    if (a == c) { n.children_.clear(); n.children_.push_back(b); }
    else if (b == c) { n.children_.clear(); n.children_.push_back(a); }
    else return;
    if (n.scene_ && n.scene_->node_registry_.contains(c)) n.scene_->node_registry_.remove(c);
    else c->scene_owned_ = false;
}
'''
# which nodes are still in the graph after the asset t was pruned: root -> {x, f -> {y, z}, w}
PRUNE = '''
A<9> i_prune(Scene<S>& s, Light<S>* t, Light<S>* lx, Light<S>* ly, Light<S>* lw, Light<S>* lm, Light<S>* lv, Model<S>* other)
{
    A<9> o{};
    auto root = frame(); auto f = frame(); auto g = frame(); auto x = instance(lx); auto y = instance(ly); auto w = instance(lw); auto m = instance(lm); auto h = frame(); auto v = instance(lv);
    auto z = std::make_shared<I>(nullptr, other);
    under(root, x); under(root, f); under(root, w); under(f, y); under(f, z); under(f, h); under(h, v); under(g, m);
    s.root_node_ = root;
    auto model = std::make_shared<Model<S>>();
    model->root_node_ = g;
    s.models_.objects_.clear(); s.models_.objects_.push_back(model);
    s.prune_graph_references_(t);
    o[0] = double(root->children_.size()); o[1] = double(f->children_.size()); o[2] = double(g->children_.size()); o[3] = double(h->children_.size());
    for (int i = 0; i < 3; ++i) if (i < int(f->children_.size())) { if (f->children_[i] == z) o[4] = 1.0; if (f->children_[i] == h) o[5] = 1.0; }
    for (int i = 0; i < 3; ++i) if (i < int(root->children_.size()) && root->children_[i] == f) o[6] = 1.0;
    return o;
}
A<9> r_prune(Scene<S>& s, Light<S>* t, Light<S>* lx, Light<S>* ly, Light<S>* lw, Light<S>* lm, Light<S>* lv, Model<S>* other)
{
    A<9> o{};
    o[0] = 3.0; o[1] = 3.0; o[2] = 1.0; o[3] = 1.0; o[4] = 1.0; o[5] = 1.0; o[6] = 1.0;
    if (lx == t) o[0] -= 1.0;
    if (lw == t) o[0] -= 1.0;
    if (ly == t) o[1] -= 1.0;
    if (lm == t) o[2] -= 1.0;
    if (lv == t) o[3] -= 1.0;
    return o;
}
// which shared pointer stands for the node t: root -> {a, f -> {b, g -> {c}}, d}
A<8> i_find(Scene<S>& s, int k)
{
    A<8> o{};
    auto root = frame(); auto f = frame(); auto g = frame(); auto a = frame(); auto b = frame(); auto c = frame(); auto d = frame(); auto u = frame();
    under(root, a); under(root, f); under(root, d); under(f, b); under(f, g); under(g, c);
    s.root_node_ = root;
    o[0] = s.find_node_shared_ptr_(root.get()) == root;
    o[1] = s.find_node_shared_ptr_(f.get()) == f;
    o[2] = s.find_node_shared_ptr_(g.get()) == g;
    o[3] = s.find_node_shared_ptr_(a.get()) == a;
    o[4] = s.find_node_shared_ptr_(b.get()) == b;
    o[5] = s.find_node_shared_ptr_(c.get()) == c;
    o[6] = s.find_node_shared_ptr_(d.get()) == d;
    o[7] = s.find_node_shared_ptr_(u.get()) == nullptr;
    return o;
}
A<8> r_find(Scene<S>& s, int k)
{
    A<8> o{};
    for (int i = 0; i < 8; ++i) o[i] = true;
    return o;
}
A<8> i_parent(Scene<S>& s, int k)
{
    A<8> o{};
    auto root = frame(); auto f = frame(); auto a = frame(); auto u = frame(); auto lone = frame();
    under(root, a); under(root, f); under(f, u);
    s.root_node_ = root;
    a->scene_ = &s; u->scene_ = &s; root->scene_ = &s; lone->scene_ = &s;
    o[0] = a->get_parent().get_() == root;
    o[1] = u->get_parent().get_() == f;
    o[2] = a->template get_parent_as<F>().get_() == root;
    o[3] = u->template get_parent_as<F>().get_() == f;
    try { root->get_parent(); } catch (...) { o[4] = 1.0; }
    try { u->template get_parent_as<I>(); } catch (...) { o[5] = 1.0; }
    lone->parent_ = lone.get();
    try { lone->get_parent(); } catch (...) { o[6] = 1.0; }
    try { lone->template get_parent_as<F>(); } catch (...) { o[7] = 1.0; }
    return o;
}
A<8> r_parent(Scene<S>& s, int k) { return r_find(s, k); }
'''


def graph():
    t = [GRAPH]
    names = ["child", "child_result"]
    for nm, ty in KINDS:
        t.append("N* i_inst_%s(F& n, Ch a, %s p) { n.children_.clear(); n.children_.push_back(a); return n.new_instance(p).lock().get(); }\n" % (nm, ty))
        t.append("N* r_inst_%s(F& n, Ch a, %s p) { n.children_.clear(); n.children_.push_back(a); auto c = std::make_shared<I>(n.scene_, p); c->parent_ = &n; n.children_.push_back(c); return c.get(); }\n" % (nm, ty))
        names.append("inst_" + nm)
    return "".join(t), names


def deep(I):
    I.recursion, I.maxdepth = 6, 24


def quiet(I, n, f, this, args, argn, on, st, fr):
    return None


def run(ctx):
    g, gn = graph()
    W = fx.Wit(ctx, "w_s02.cpp", HEAD + REG + g + DEL + PRUNE + "}\n", flags=["-fno-access-control"])
    P = W.P
    ctx.explanation = ("registry operations are followed on every path next to a reference, observed through looking up an arbitrary name afterwards; "
                       "graph operations are followed on representative trees")
    ctx.trusted = ["std::string, std::vector, std::unordered_map and std::shared_ptr semantics", "registries with up to three objects and trees of depth three stand for any"]
    logs = {"huira::Logger::log": (quiet, True), "huira::Logger::get_level": (lambda *a: tm.c(99), True)}

    def ignore(a):
        r = tm.root(a)
        return r.op in ("mapent", "mapval") or any(x.op == "fld" and x.a[1] in maps for x in chain(a))
    maps = {fd["d"] for r in P.records.values() for fd in r.get("fields", ()) if fd["n"] == "name_registry_"}

    def chain(a):
        while a is not None and a.op in ("fld", "el", "padd", "prj"):
            yield a
            a = a.a[0]
    V = Vocab(P, (), make=False)

    def fresh_name(I, n, f, this, args, argn, on, st, fr):
        # some name that the registry does not contain (checked on its own below)
        k = tm.mk("uniquename", this, I.obj_value(st, args[0], argn[0].t))
        m = next(fd["d"] for fd in P.records[f.cls]["fields"] if fd["n"] == "name_registry_")
        r = I.rec_result(n, st, fr, k)
        I.assume(st, tm.settype(tm.mk("contains", I.load(st, tm.fld(this, m)), k), ("b",)), False)
        return r
    logs["huira::NameRegistry::make_unique_name_"] = (fresh_name, True)
    for nm in ("lookup", "add", "set_name", "remove"):
        same(ctx, "registry", W, "i_" + nm, "r_" + nm, V, site=nm, limit=300, models=logs, ignore=ignore)
    del logs["huira::NameRegistry::make_unique_name_"]
    unique(ctx, W, logs)
    V = Vocab(P, ())
    for nm in gn:
        same(ctx, "graph", W, "i_" + nm, "r_" + nm, V, site=nm, limit=100, models=logs)
    V = Vocab(P, ["huira::NameRegistry::contains", "huira::NameRegistry::remove"])
    same(ctx, "delete", W, "i_delete", "r_delete", V, site="delete_child", limit=200, models=logs)
    V = Vocab(P, (), make=False)
    for nm in ("find", "parent", "prune"):
        same(ctx, "tree", W, "i_" + nm, "r_" + nm, V, site=nm, limit=200, models=logs, ignore=lambda a: True, setup=deep)


def unique(ctx, W, logs):
    """On every path the name made unique is not one the registry contains; a free name is kept."""
    P = W.P
    fn = W.fns["w_unique"]
    wh, q = fx.where_of(P, P.defs["huira::NameRegistry::make_unique_name_"][0] if "huira::NameRegistry::make_unique_name_" in P.defs else fn)
    ps, full = W.paths("w_unique", limit=60, models=logs)
    n = 0
    for tr, o in ps:
        if o.r.st is None:
            continue
        I, st = o.I, o.r.st
        v = I.obj_value(st, o.r.val, fn.ret)
        name = I.obj_value(st, tm.mk("par", fn.params[1]["d"]), fn.params[1]["t"])
        reg = [t for t, k in tr if t.op == "contains"]
        has = lambda x: tm.settype(tm.mk("contains", reg[0].a[0], x), ("b",))
        if not reg:
            ctx.ob(False, "unique", wh, "%s returns a name without asking whether the registry contains it" % q, "unique")
            continue
        n += 1
        taken = I.known(st, has(name))
        if taken is False:
            ctx.ob(v is name, "unique", wh, "%s changes a name that is free" % q, "free")
        else:
            f = st.facts.get(has(v))
            ctx.ob(f is False, "unique", wh, "%s may return a name that the registry contains already" % q, "taken")
    ctx.require(n >= 2, "paths of make_unique_name_")
