"""M10: rays, primitives, clipping and trajectories compute the geometry their names say.

Witness functions over the geometry classes with symbolic inputs. Value graphs are compared pointwise with independent
geometry; code whose shape depends on its input (clipping, root finding) is followed along every way through it, each
way giving exact terms. Embree's packet accessors are modelled as the record fields they denote.
"""
import math
import random
import itertools
from sa import concrete as cc
from sa import fx
from sa import terms as tm

INF = float("inf")
TRI = 17  # values per vertex


def v3(i, e):
    return "".join("o[%d] = %s.%s; " % (i + k, e, "xyz"[k]) for k in range(3))


def s3(i, e):
    return "".join("o[%d] = %s[%d]; " % (i + k, e, k) for k in range(3))


VERT = ["position.x", "position.y", "position.z", "albedo[0]", "albedo[1]", "albedo[2]", "normal.x", "normal.y", "normal.z", "uv.x", "uv.y"]
TANG = ["tangent.x", "tangent.y", "tangent.z", "bitangent.x", "bitangent.y", "bitangent.z"]


SIZES = (("mesh_few", 4, 3), ("mesh_many", 4, 5), ("mesh_none", 4, 0), ("mesh_empty", 0, 0), ("mesh_same", 3, 3))

INTER = ((1, 2), (2, 1), (2, 2))


def text():
    t = ['#include "huira/huira.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, 200>;"]

    def w(name, params, body):
        t.append("A %s(%s) { A o{}; %s return o; }" % (name, params.rstrip(", "), body))
    # rays
    w("ray", "float ox, float oy, float oz, float dx, float dy, float dz, float t",
      "Ray<RGB> r(Vec3<float>{ox, oy, oz}, Vec3<float>{dx, dy, dz}); auto p = r.at(t); " + v3(0, "p") + v3(3, "r.origin()") + v3(6, "r.direction()") + v3(9, "r.reciprocal_direction()") +
      "HitRecord h; o[12] = h.hit(); h.inst_id = 3; o[13] = h.hit(); o[14] = h.t == std::numeric_limits<float>::infinity(); o[15] = h.geom_id == RTC_INVALID_GEOMETRY_ID;")
    # ellipsoid
    RC = "Ellipsoid<RGB> e(units::Meter{rx}, units::Meter{ry}, units::Meter{rz}); "
    w("ell", "double rx, double ry, double rz, float ox, float oy, float oz, float dx, float dy, float dz, float tn, float tf, unsigned int ip, unsigned int ig, unsigned int pp, unsigned int gg, unsigned int ii, float hu, float hn",
      RC + "RTCRayHit rh{}; rh.ray.org_x = ox; rh.ray.org_y = oy; rh.ray.org_z = oz; rh.ray.dir_x = dx; rh.ray.dir_y = dy; rh.ray.dir_z = dz; rh.ray.tnear = tn; rh.ray.tfar = tf; "
      "rh.hit.Ng_x = hn; rh.hit.Ng_y = hn + 1; rh.hit.Ng_z = hn + 2; rh.hit.u = hu; rh.hit.v = hu + 1; rh.hit.primID = ip; rh.hit.geomID = ig; rh.hit.instID[0] = ip + ig; "
      "RTCRayQueryContext c{}; c.instID[0] = ii; int valid[1] = {-1}; RTCIntersectFunctionNArguments a{}; a.valid = valid; a.geometryUserPtr = &e; a.primID = pp; a.context = &c; a.rayhit = reinterpret_cast<RTCRayHitN*>(&rh); a.N = 1; a.geomID = gg; "
      "Ellipsoid<RGB>::intersect_callback(&a); o[0] = rh.ray.tfar; o[1] = rh.hit.Ng_x; o[2] = rh.hit.Ng_y; o[3] = rh.hit.Ng_z; o[4] = rh.hit.u; o[5] = rh.hit.v; o[6] = rh.hit.primID; o[7] = rh.hit.geomID; o[8] = rh.hit.instID[0]; o[9] = rh.ray.tnear; "
      "HitRecord h; h.u = rh.hit.u; h.v = rh.hit.v; Interaction<RGB> s; e.compute_surface_interaction(h, s); " + v3(10, "s.position") + v3(13, "s.normal_g") + v3(16, "s.normal_s"))
    w("ell_bounds", "double rx, double ry, double rz", RC + "RTCBounds b{}; RTCBoundsFunctionArguments a{}; a.geometryUserPtr = &e; a.primID = 0; a.bounds_o = &b; Ellipsoid<RGB>::bounds_callback(&a); "
      "o[0] = b.lower_x; o[1] = b.lower_y; o[2] = b.lower_z; o[3] = b.upper_x; o[4] = b.upper_y; o[5] = b.upper_z; " + v3(6, "e.radii()"))
    w("ell_surface", "double rx, double ry, double rz, float u, float v", RC + "HitRecord h; h.u = u; h.v = v; Interaction<RGB> s; e.compute_surface_interaction(h, s); auto q = e.compute_uv(h); " +
      v3(0, "s.position") + v3(3, "s.normal_g") + v3(6, "s.normal_s") + v3(9, "s.tangent") + v3(12, "s.bitangent") + "o[15] = s.uv.x; o[16] = s.uv.y; o[17] = q.x; o[18] = q.y;")
    # mesh
    fill = "".join("vb[%d].%s = k * %s + %s; " % (i, f, repr(round(0.37 + 0.11 * i * i - 0.05 * j, 3)) + "f", repr(round(math.sin(1.0 + i * 11 + j), 3)) + "f") for i in range(4) for j, f in enumerate(VERT))
    tfill = "".join("tb[%d].%s = k * %s + %s; " % (i, f, repr(round(0.21 + 0.13 * i - 0.04 * j, 3)) + "f", repr(round(math.cos(2.0 + i * 7 + j), 3)) + "f") for i in range(4) for j, f in enumerate(TANG))
    MB = "VertexBuffer<RGB> vb(4); TangentBuffer tb(4); " + fill + tfill
    for nm, args in (("mesh", "IndexBuffer{0, 2, 1, 3, 1, 2}, vb"), ("mesh_tan", "IndexBuffer{0, 2, 1, 3, 1, 2}, vb, tb"), ("mesh_notan", "IndexBuffer{0, 2, 1, 3, 1, 2}, vb, TangentBuffer{}")):
        for p in (0, 1):
            w("%s_%d" % (nm, p), "float k, float u, float v", MB + "Mesh<RGB> m(%s); HitRecord h; h.u = u; h.v = v; h.prim_id = %d; Interaction<RGB> s; m.compute_surface_interaction(h, s); auto q = m.compute_uv(h); " % (args, p) +
              v3(0, "s.position") + s3(3, "s.vertex_albedo") + v3(6, "s.normal_s") + "o[9] = s.uv.x; o[10] = s.uv.y; " + v3(11, "s.tangent") + v3(14, "s.bitangent") +
              "o[17] = q.x; o[18] = q.y; o[19] = m.has_tangents(); o[20] = static_cast<double>(m.index_count()); o[21] = static_cast<double>(m.vertex_count()); o[22] = static_cast<double>(m.triangle_count());")
    w("mesh_index_0", "std::uint32_t i0, std::uint32_t i1, std::uint32_t i2", "VertexBuffer<RGB> vb(4); IndexBuffer ib{i0, i1, i2}; try { Mesh<RGB> m(ib, vb); o[0] = 1; } catch (...) { }")
    w("mesh_index_1", "std::uint32_t i0, std::uint32_t i1, std::uint32_t i2", "VertexBuffer<RGB> vb(4); TangentBuffer tb(4); IndexBuffer ib{i0, i1, i2}; try { Mesh<RGB> m(ib, vb, tb); o[0] = 1; } catch (...) { }")
    for nm, nv, nt in SIZES:
        w(nm, "int d", "VertexBuffer<RGB> vb(%d); TangentBuffer tb(%d); IndexBuffer ib{0, 1, 2}; try { Mesh<RGB> m(ib, vb, tb); o[0] = 1; } catch (...) { }" % (nv, nt))
    # frames and offsets
    w("frame", "float x, float y, float z", "Vec3<float> a, b; build_default_tangent_frame(Vec3<float>{x, y, z}, a, b); " + v3(0, "a") + v3(3, "b"))
    for T in ("float", "double"):
        w("offset_" + T, "{0} px, {0} py, {0} pz, {0} nx, {0} ny, {0} nz".format(T), "auto q = offset_intersection_(Vec3<%s>{px, py, pz}, Vec3<%s>{nx, ny, nz}); " % (T, T) + v3(0, "q"))
    # frustum
    w("contains", "float ax, float ay, float az, float bx, float by, float bz, float dx, float dy, float dz", "Frustum<RGB> e; Frustum<RGB> f({Vec3<float>{ax, ay, az}, Vec3<float>{bx, by, bz}}); Vec3<float> d{dx, dy, dz}; o[0] = e.contains(d); o[1] = f.contains(d); o[2] = static_cast<double>(f.plane_count()); o[3] = static_cast<double>(e.plane_count()); " + v3(4, "f.plane_normals()[1]"))
    PL = {1: "Vec3<float>{ax, ay, az}", 2: "Vec3<float>{ax, ay, az}, Vec3<float>{bx, by, bz}"}
    PP = {1: "float ax, float ay, float az, ", 2: "float ax, float ay, float az, float bx, float by, float bz, "}
    pos = ", ".join("float p%d%s" % (i, c) for i in range(3) for c in "xyz")
    for n, tan in ((1, True), (1, False), (2, False), (0, False)):
        b = "Triangle<RGB> t; std::array<Tangent, 3> g{}; " + "".join("t.vertices[%d].position = Vec3<float>{p%dx, p%dy, p%dz}; " % (i, i, i, i) for i in range(3))
        if n == 1:
            b += "".join("t.vertices[%d].%s = %sf; " % (i, f, repr(round(math.sin(3.0 + i * 11 + j), 3))) for i in range(3) for j, f in enumerate(VERT) if j > 2)
        if tan:
            b += "".join("g[%d].%s = %sf; " % (i, f, repr(round(math.cos(5.0 + i * 7 + j), 3))) for i in range(3) for j, f in enumerate(TANG)) + "t.tangents = g; "
        b += ("Frustum<RGB> f({%s}); " % PL[n] if n else "Frustum<RGB> f; ") + "auto r = f.clip_triangle(t); o[0] = static_cast<double>(r.size()); "
        fs = VERT if n == 1 else VERT[:3]
        for k in range(3):
            b += "if (r.size() > %d) { " % k
            for j in range(3):
                q = 1 + TRI * (3 * k + j)
                b += "".join("o[%d] = r[%d].vertices[%d].%s; " % (q + x, k, j, f) for x, f in enumerate(fs))
                if tan:
                    b += "if (r[%d].tangents.has_value()) { " % k + "".join("o[%d] = (*r[%d].tangents)[%d].%s; " % (q + 11 + x, k, j, f) for x, f in enumerate(TANG)) + "} "
            b += "o[%d] = r[%d].tangents.has_value(); } " % (190 + k, k)
        w("clip%d%s" % (n, "t" if tan else ""), PP.get(n, "") + pos, b)
    # trajectories
    for n in (1, 2, 3, 4, 5, 6):
        pts = ", ".join("Vec3<float>{s%dx, s%dy, s%dz}" % (i, i, i) for i in range(n))
        par = ", ".join("float s%d%s" % (i, c) for i in range(n) for c in "xyz")
        mk = "TrajectoryArc c(std::vector<Vec3<float>>{%s}); " % pts
        w("arc%d" % n, par + ", float t", mk + "auto p = c.evaluate(t); " + v3(0, "p") + "o[3] = static_cast<double>(c.sample_count());" + ("o[4] = static_cast<double>(c.find_plane_crossings(p).size());" if n == 1 else ""))
        if n in (2, 3, 4):
            w("cross%d" % n, par + ", float nx, float ny, float nz", mk + "auto r = c.find_plane_crossings(Vec3<float>{nx, ny, nz}); o[0] = static_cast<double>(r.size()); for (std::size_t i = 0; i < r.size(); ++i) { o[1 + i] = r[i]; }")
        if n in (2, 3):
            for m in ((1, 2) if n == 2 else (1,)):
                w("cliparc%d_%d" % (n, m), PP[m] + par, mk + "Frustum<RGB> f({%s}); auto r = f.clip_arc(c); o[0] = static_cast<double>(r.size()); for (std::size_t i = 0; i < r.size(); ++i) { o[1 + 2 * i] = r[i].first; o[2 + 2 * i] = r[i].second; }" % PL[m])
    t.append("template <class T> A inter(std::vector<std::pair<float, float>> a, std::vector<std::pair<float, float>> b) { A o{}; if constexpr (requires { T::intersect_intervals_(a, b); }) { auto r = T::intersect_intervals_(a, b); "
             "o[0] = static_cast<double>(r.size()); for (std::size_t i = 0; i < r.size(); ++i) { o[1 + 2 * i] = r[i].first; o[2 + 2 * i] = r[i].second; } o[19] = 1; } return o; }")
    for x, y in INTER:
        w("inter%d%d" % (x, y), ", ".join("float %s%d" % (c, i) for c, n in (("a", x), ("b", y)) for i in range(2 * n)),
          "o = inter<Frustum<RGB>>(%s);" % ", ".join("{%s}" % ", ".join("{%s%d, %s%d}" % (c, 2 * i, c, 2 * i + 1) for i in range(n)) for c, n in (("a", x), ("b", y))))
    w("arc0", "int d", "try { TrajectoryArc c(std::vector<Vec3<float>>{}); o[0] = 1; } catch (...) { } TrajectoryArc g(std::vector<Vec3<float>>{Vec3<float>{1, 2, 3}}); Frustum<RGB> f; auto r = f.clip_arc(g); o[1] = static_cast<double>(r.size()); o[2] = r[0].first; o[3] = r[0].second; o[4] = 1;")
    t.append("template <class T> A cub(float a, float b, float c, float d, float lo, float hi) { A o{}; if constexpr (requires { T::solve_cubic_(a, b, c, d, lo, hi); }) { auto r = T::solve_cubic_(a, b, c, d, lo, hi); o[0] = static_cast<double>(r.size()); for (std::size_t i = 0; i < r.size(); ++i) { o[1 + i] = r[i]; } o[9] = 1; } return o; }")
    w("cubic", "float a, float b, float c, float d, float lo, float hi", "o = cub<TrajectoryArc>(a, b, c, d, lo, hi);")
    # the radius at which a point source is cut off
    KW = "Image<RGB> k(5, 5); "
    KW += "".join("k(%d, %d) = RGB{%s, %s, %s}; " % (x, y, kn(x, y, 0), kn(x, y, 1), kn(x, y, 2)) for y in range(5) for x in range(5))
    w("lut", "float m, float q, float area, float thr, float e0, float e1, float e2, float irr, int mn", KW + "RadiusLUTConfig c; c.photon_threshold = thr; auto t = build_radius_lut<RGB>(k, 2, area, RGB{e0, e1, e2}, c); o[0] = static_cast<double>(t.size()); "
      "o[1] = lookup_effective_radius(t, irr, mn); auto z = build_radius_lut<RGB>(k, 0, area, RGB{e0, e1, e2}, c); o[2] = static_cast<double>(z.size()); o[3] = lookup_effective_radius(z, irr, mn);")
    t.append("}")
    return "\n".join(t)


def kn(x, y, c):
    r = max(abs(x - 2), abs(y - 2))
    return "m * %sf" % (0.01 * (1 + 0.1 * c)) if (x, y) == (4, 1) else "q * %sf" % (0.05 * (1.2 - 0.1 * c)) if (x, y) == (2, 3) else {0: "0.9f", 1: "0.0004f", 2: "0.00003f"}[r]


def kv(x, y, c, m, q):
    s = kn(x, y, c).replace("f", "").split("*")
    return float(s[-1]) * {"m": m, "q": q}.get(s[0].strip(), 1)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unit(a):
    l = math.sqrt(dot(a, a))
    return [x / l for x in a]


def polyclip(tri, planes):
    """(area of the part of the triangle inside all planes)."""
    poly = [list(p) for p in tri]
    for n in planes:
        out = []
        for i, p in enumerate(poly):
            q = poly[(i + 1) % len(poly)]
            dp, dq = dot(n, p), dot(n, q)
            if dp >= 0:
                out.append(p)
            if (dp >= 0) != (dq >= 0):
                s = dp / (dp - dq)
                out.append([x + s * (y - x) for x, y in zip(p, q)])
        poly = out
        if not poly:
            return 0.0
    return sum(0.5 * math.sqrt(dot(c, c)) for c in (cross([b - a for a, b in zip(poly[0], poly[i])], [b - a for a, b in zip(poly[0], poly[i + 1])]) for i in range(1, len(poly) - 1)))


def bary(tri, p):
    """Barycentric coordinates of p in the triangle's plane, and the distance from that plane."""
    e1, e2, d = ([b - a for a, b in zip(tri[0], x)] for x in (tri[1], tri[2], p))
    n = cross(e1, e2)
    nn = dot(n, n)
    u, v = dot(cross(d, e2), n) / nn, dot(cross(e1, d), n) / nn
    return (1 - u - v, u, v), abs(dot(n, d)) / math.sqrt(nn)


def spline(y, t):
    """Natural cubic spline through y at equal steps on [0, 1]."""
    n = len(y)
    h = 1.0 / (n - 1)
    m = n - 2
    M = [[0.0] * m for _ in range(m)]
    r = [6 * (y[i] - 2 * y[i + 1] + y[i + 2]) / h / h for i in range(m)]
    for i in range(m):
        M[i][i] = 4.0
        if i:
            M[i][i - 1] = 1.0
        if i + 1 < m:
            M[i][i + 1] = 1.0
    for i in range(m):
        for j in range(i + 1, m):
            f = M[j][i] / M[i][i]
            M[j] = [a - f * b for a, b in zip(M[j], M[i])]
            r[j] -= f * r[i]
    x = [0.0] * m
    for i in reversed(range(m)):
        x[i] = (r[i] - sum(M[i][j] * x[j] for j in range(i + 1, m))) / M[i][i]
    d2 = [0.0] + x + [0.0]
    i = min(max(int(t / h), 0), n - 2)
    a, b = ((i + 1) * h - t) / h, (t - i * h) / h
    return a * y[i] + b * y[i + 1] + ((a ** 3 - a) * d2[i] + (b ** 3 - b) * d2[i + 1]) * h * h / 6


def lagrange(y, t):
    if len(y) == 1:
        return y[0]
    if len(y) == 2:
        return y[0] + (y[1] - y[0]) * t
    return y[0] * (1 - t) * (1 - 2 * t) + 4 * y[1] * t * (1 - t) + y[2] * t * (2 * t - 1)


def real_roots(f, lo, hi, n=4000):
    """Sign changes of f on [lo, hi], refined."""
    out = []
    p, fp = lo, f(lo)
    for i in range(1, n + 1):
        q = lo + (hi - lo) * i / n
        fq = f(q)
        if (fp < 0) != (fq < 0):
            a, b = p, q
            for _ in range(60):
                m = (a + b) / 2
                if (f(m) < 0) == (fp < 0):
                    a = m
                else:
                    b = m
            out.append((a + b) / 2)
        p, fp = q, fq
    return out


def embree(P, acc):
    """Packet accessors as the fields of the (single) record they denote; the filter's verdicts are acc[0], acc[1]…"""
    F = {r: {k: v[0] for k, v in fx.fields(P, r).items()} for r in ("RTCRay", "RTCHit", "RTCRayHit", "RTCFilterFunctionNArguments")}
    m = {}

    def one(args, k):
        return all(tm.isc(x) and x.a[0] == v for x, v in zip(args, k))

    def field(rec, nm):
        def h(I, n, f, this, args, argn, on, st, fr):
            if not one(args[1:3], (1, 0)):
                return NotImplemented
            a = tm.fld(args[0], F[rec][nm])
            return tm.el(a, args[3]) if nm == "instID" or nm == "instPrimID" else a
        return h

    def sub(nm):
        def h(I, n, f, this, args, argn, on, st, fr):
            return tm.fld(args[0], F["RTCRayHit"][nm]) if one(args[1:2], (1,)) else NotImplemented
        return h

    def filt(I, n, f, this, args, argn, on, st, fr):
        D = F["RTCFilterFunctionNArguments"]
        p = I.load(st, tm.fld(args[1], D["valid"]), ("p",))
        cell = tm.mk("glob", "verif_filters")
        k = st.store.get(cell, tm.c(0))
        if not tm.isc(k):
            return NotImplemented
        k = k.a[0]
        st.store[cell] = tm.c(k + 1)
        I.store(st, p, tm.ite(tm.eq(("i", 32), acc[k], tm.c(0)), tm.c(0), tm.c(-1)) if k < len(acc) else tm.c(-1))
        return None
    for f in P.fns.values():
        if f.n.startswith("RTCRayN_") and f.n[8:] in F["RTCRay"]:
            m[f.n] = (field("RTCRay", f.n[8:]), True)
        elif f.n.startswith("RTCHitN_") and f.n[8:] in F["RTCHit"]:
            m[f.n] = (field("RTCHit", f.n[8:]), True)
    HIT = [(tm.fld, F["RTCHit"][x], ("f",)) for x in ("Ng_x", "Ng_y", "Ng_z", "u", "v")] + [(tm.fld, F["RTCHit"][x], ("i", 32)) for x in ("primID", "geomID")]

    def copy(I, st, dst, src):
        for g, k, ty in HIT:
            I.store(st, g(dst, k), I.load(st, g(src, k), ty))
        for k in ("instID", "instPrimID"):
            if k in F["RTCHit"]:
                I.store(st, tm.el(tm.fld(dst, F["RTCHit"][k]), tm.c(0)), I.load(st, tm.el(tm.fld(src, F["RTCHit"][k]), tm.c(0)), ("i", 32)))

    def get_hit(I, n, f, this, args, argn, on, st, fr):
        if not one(args[1:3], (1, 0)):
            return NotImplemented
        a = I.tmp(n, fr, "hit")
        I.kill_sub(st, a)
        copy(I, st, a, args[0])
        return a

    def put_hit(I, n, f, this, args, argn, on, st, fr):
        if not one(args[2:4], (1, 0)):
            return NotImplemented
        copy(I, st, args[0], args[1])
        return None
    m["rtcGetHitFromHitN"] = (get_hit, True)
    m["rtcCopyHitToHitN"] = (put_hit, True)
    m["RTCRayHitN_RayN"] = (sub("ray"), True)
    m["RTCRayHitN_HitN"] = (sub("hit"), True)
    m["rtcInvokeIntersectFilterFromGeometry"] = (filt, True)
    return m


def run(ctx):
    W = fx.Wit(ctx, "w_m10.cpp", text(), flags=["-fno-access-control"])
    P = W.P
    rnd = random.Random(10)
    NS = 160 if ctx.thorough else 40

    def calm(I):
        I.calm = True

    def where(o, skip=("Vec", "units", "Quantity")):
        return fx.where_of(P, o.fn, last=True, skip=skip)[0]

    def go(name, **k):
        k.setdefault("setup", calm)
        o = W.run(name, unroll=40, budget=3000000, **k)
        if not o.ok:
            ctx.count("undetermined")
            ctx.notes.append("%s: no result" % name)
            return None, None, {}
        p = {q["n"]: o.arg(i).t for i, q in enumerate(o.fn.params)}
        return o, place(name, where(o)), p

    def out(o, i):
        return o.load(tm.el(o.r.val, tm.c(i)))

    def env_of(p, d):
        return {p[k]: v for k, v in d.items() if k in p}

    def chk(rule, name, o, i, envs, want, wh, **k):
        # (want gets the point by name)
        return fx.points(ctx, rule, name, out(o, i), [e for e, _ in envs], (lambda m: lambda e: want(m[id(e)]))({id(e): d for e, d in envs}), wh,
                         say=lambda e: next(", ".join("%s=%.6g" % kv_ for kv_ in d.items()) for x, d in envs if x is e), **k)

    def pts(p, n=NS, **rng):
        r = []
        for _ in range(n):
            d = {}
            for k in p:
                lo, hi = rng.get(k, rng.get(k[0] + "_", (-2.0, 2.0)))
                d[k] = rnd.uniform(lo, hi) if isinstance(lo, float) else rnd.randint(lo, hi)
            r.append((env_of(p, d), d))
        return r

    def place(name, dflt):
        for k, v in (("cliparc", "Frustum::clip_arc"), ("inter", "Frustum::clip_arc"), ("clip", "Frustum::clip_triangle"), ("arc", "TrajectoryArc::evaluate"), ("cross", "TrajectoryArc::find_plane_crossings"), ("mesh_", "Mesh::(ctor)"), ("mesh", "Mesh::compute_surface_interaction")):
            if name.startswith(k):
                for f in P.defs:
                    if f.has_body and (f.key.endswith(v) or v.endswith("(ctor)") and f.sp == "ctor" and f.key.endswith("Mesh::Mesh")):
                        return f.where
        return dflt

    def follow(name, limit=900, **k):
        ps, full = W.paths(name, limit=limit, unroll=12, budget=4000000, setup=calm, **k)
        ctx.count("paths", len(ps))
        if not full:
            ctx.notes.append("%s: only %d ways were followed" % (name, len(ps)))
        fn = W.fns[name]
        return ps, {q["n"]: tm.mk("par", q["d"]) for q in fn.params}, place(name, fx.where_of(P, fn, last=True, skip=("Vec",))[0])

    def values(ps, p, d, idx_):
        env = env_of(p, d)
        q, sure = fx.on_path(ps, env)
        if q is None or not q.ok:
            return None
        memo = {}
        cnt = cc.concrete(q.load(tm.el(q.r.val, tm.c(0))).t, env, None, memo)
        if cnt is None:
            return None
        r = [cc.concrete(q.load(tm.el(q.r.val, tm.c(1 + i))).t, env, None, memo) for i in range(idx_ * int(cnt))]
        return None if any(x is None for x in r) else r

    def close(rule, nm, wh, missed, worst, n_ok):
        if worst:
            ctx.ob(False, rule, wh, "%s: %s" % (nm, worst), nm)
        elif n_ok and not missed:
            ctx.ob(True, rule, wh, nm, nm)
        else:
            ctx.notes.append("%s: %d of %d points not followed" % (nm, missed, missed + n_ok))
            ctx.count("undetermined")
        ctx.count("pointwise", n_ok)
    def accepted(what, ps, E, want, wh):
        missed, okn, worst = 0, 0, None
        for e, d in E:
            q, sure = fx.on_path(ps, e)
            g = cc.concrete(q.load(tm.el(q.r.val, tm.c(0))).t, e) if q is not None and q.ok else None
            if g is None:
                missed += 1
                continue
            okn += 1
            if bool(g) != want(d):
                worst = worst or "%s is %s%s" % (what, "accepted" if g else "refused", " (%s)" % d if d else "")
        close("mesh", what, wh, missed, worst, okn)

    # ------------------------------------------------ rays
    o, wh, p = go("ray")
    if o:
        E = pts(p)
        for i in range(3):
            a = "xyz"[i]
            chk("ray", "Ray::at's %s" % a, o, i, E, lambda d, a=a: d["o" + a] + d["t"] * d["d" + a], wh, rel=1e-9)
            chk("ray", "Ray::origin's %s" % a, o, 3 + i, E, lambda d, a=a: d["o" + a], wh)
            chk("ray", "Ray::direction's %s" % a, o, 6 + i, E, lambda d, a=a: d["d" + a], wh)
            chk("ray", "Ray::reciprocal_direction's %s" % a, o, 9 + i, E, lambda d, a=a: 1 / d["d" + a], wh)
        for i, (nm, v) in enumerate((("an empty HitRecord is a hit", 0), ("a HitRecord with an instance is a hit", 1), ("an empty HitRecord is at infinity", 1), ("an empty HitRecord has no geometry", 1))):
            chk("ray", nm, o, 12 + i, E[:1], lambda d, v=v: v, wh)

    # ------------------------------------------------ ellipsoid
    o, wh, p = go("ell_bounds")
    if o:
        E = pts(p, r_=(0.2, 4.0))
        for i in range(9):
            a = "xyz"[i % 3]
            chk("ellipsoid", "%s %s" % (("lower bound", "upper bound", "radius")[i // 3], a), o, i, E, lambda d, a=a, s=(-1, 1, 1)[i // 3]: s * d["r" + a], wh)
    o, wh, p = go("ell_surface")
    if o:
        E = pts(p, r_=(0.2, 4.0), u=(0.0, 1.0), v=(0.02, 0.98))

        def surf(d):
            ph, th = d["u"] * 2 * math.pi - math.pi, d["v"] * math.pi
            n = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
            r = [d["rx"], d["ry"], d["rz"]]
            g = unit([x / q for x, q in zip(n, r)])
            tn = unit([-r[0] * n[1], r[1] * n[0], 0])
            return [x * q for x, q in zip(n, r)] + g + g + tn + cross(g, tn) + [d["u"], d["v"]] * 2
        nm = ["position", "normal_g", "normal_s", "tangent", "bitangent"]
        for i in range(19):
            chk("ellipsoid", "%s[%d] of the surface point" % (nm[i // 3], i % 3) if i < 15 else "uv of the surface point", o, i, E, lambda d, i=i: surf(d)[i], wh, rel=1e-6, atol=1e-6)
    acc = [tm.mk("par", "verif_acc0"), tm.mk("par", "verif_acc1")]
    em = embree(P, acc)
    ps, full = W.paths("ell", limit=200, unroll=8, budget=3000000, models=em, setup=calm)
    fn = W.fns["ell"]
    p = {q["n"]: tm.mk("par", q["d"]) for q in fn.params}
    wh = "include/huira_impl/geometry/ellipsoid.ipp"
    for f in P.defs:
        if f.n == "intersect_callback" and f.has_body and "Ellipsoid" in f.key:
            wh = f.where
    ctx.count("paths", len(ps))

    def ellpoint(k):
        r = [rnd.uniform(0.4, 3) for _ in range(3)]
        while True:
            tgt = [q * s for q, s in zip(r, unit([rnd.gauss(0, 1) for _ in range(3)]))]
            tgt = [x * rnd.uniform(0.1, 0.95) for x in tgt] if k % 7 else [x * 3 for x in tgt]
            O = [rnd.uniform(-6, 6) for _ in range(3)] if k % 3 else [x * rnd.uniform(0, 0.4) for x in r]
            D = [(a - b) * rnd.uniform(0.2, 2) for a, b in zip(tgt, O)]
            if k % 7 == 0:
                D = [rnd.uniform(-1, 1) for _ in range(3)]
            a, b, c_ = (sum(x * y / q / q for x, y, q in zip(X, Y, r)) for X, Y in ((D, D), (O, D), (O, O)))
            disc = b * b - a * (c_ - 1)
            if abs(disc) < 1e-2 * a or a < 1e-3:
                continue
            ts = sorted([(-b - math.sqrt(disc)) / a, (-b + math.sqrt(disc)) / a]) if disc > 0 else []
            tn = rnd.choice([0.0, 0.0, 0.0, 0.5, 1.0])
            tf = rnd.choice([INF, INF, 100.0, rnd.uniform(0.3, 2)])
            if any(abs(x - y) < 1e-3 for x in ts for y in (tn, tf)):
                continue
            return r, O, D, tn, tf, ts
    n = 0
    names = ["tfar", "Ng.x", "Ng.y", "Ng.z", "u", "v", "primID", "geomID", "instID", "tnear"]
    bad = set()
    for k in range(6 * NS):
        r, O, D, tn, tf, ts = ellpoint(k)
        av = [rnd.choice([0, -1]), rnd.choice([0, -1])]
        d = dict(zip(("rx", "ry", "rz", "ox", "oy", "oz", "dx", "dy", "dz"), r + O + D), tn=tn, tf=tf, ip=7, ig=8, pp=21, gg=22, ii=23, hu=0.25, hn=40.0)
        env = env_of(p, d)
        env.update(dict(zip(acc, av)))
        q, sure = fx.on_path(ps, env)
        if q is None or not q.ok:
            ctx.count("points_not_followed")
            continue
        n += 1
        cand = [t for t in ts if tn <= t <= tf]
        hit = next((t for t, a in zip(cand, av) if a), None)
        if hit is None:
            want = [tf, 40.0, 41.0, 42.0, 0.25, 1.25, 7, 8, 15, tn]
        else:
            X = [a + hit * b for a, b in zip(O, D)]
            g = unit([x / s / s for x, s in zip(X, r)])
            want = [hit] + g + [None, None, 21, 22, 23, tn]
        got = [cc.concrete(q.load(tm.el(q.r.val, tm.c(i))).t, env) for i in range(19)]
        if any(x is None for x in got):
            ctx.count("undetermined")
            continue
        if hit is not None:
            got[1:4] = unit(got[1:4])
            want += X + g + g
        else:
            want += [None] * 9
        for i, w_ in enumerate(want):
            if w_ is None:
                continue
            x = got[i]
            ok = x == w_ if abs(w_) == INF else abs(x - w_) < 2e-5 * (1 + abs(w_))
            nm = names[i] if i < 10 else "the surface point at (u, v)[%d]" % (i - 10)
            if not ok and nm not in bad:
                bad.add(nm)
                ctx.ob(False, "ellipsoid-hit", wh, "ray from (%s) along (%s), tnear %g, tfar %g, filter verdicts %s, on radii (%s): %s is %.6g; by definition %.6g" % (", ".join("%.3g" % z for z in O), ", ".join("%.3g" % z for z in D), tn, tf, av, ", ".join("%.3g" % z for z in r), nm, x, w_), nm)
    ctx.count("pointwise", n)
    if n >= NS and not bad:
        ctx.ob(True, "ellipsoid-hit", wh, "nearest accepted intersection", "ell")
    elif n < NS:
        ctx.notes.append("Ellipsoid's intersection: only %d points could be followed (%d ways)" % (n, len(ps)))

    # ------------------------------------------------ mesh
    idx = {0: (0, 2, 1), 1: (3, 1, 2)}
    for nm in ("mesh", "mesh_tan", "mesh_notan"):
        for pr in (0, 1):
            o, wh, p = go("%s_%d" % (nm, pr))
            if not o:
                continue
            E = pts(p, NS // 2, u=(0.0, 0.5), v=(0.0, 0.5))
            for j in range(23):
                if j < 17:
                    def want(d, j=j):
                        if j >= 11 and nm != "mesh_tan":
                            return 0.0
                        f = (lambda i: d["k"] * round(0.37 + 0.11 * i * i - 0.05 * j, 3) + round(math.sin(1.0 + i * 11 + j), 3)) if j < 11 else \
                            (lambda i: d["k"] * round(0.21 + 0.13 * i - 0.04 * (j - 11), 3) + round(math.cos(2.0 + i * 7 + j - 11), 3))
                        a, b, c_ = (f(i) for i in idx[pr])
                        return (1 - d["u"] - d["v"]) * a + d["u"] * b + d["v"] * c_
                    what = (VERT + TANG)[j]
                elif j < 19:
                    want = lambda d, j=j: (lambda f: (1 - d["u"] - d["v"]) * f(idx[pr][0]) + d["u"] * f(idx[pr][1]) + d["v"] * f(idx[pr][2]))(lambda i: d["k"] * round(0.37 + 0.11 * i * i - 0.05 * (j - 8), 3) + round(math.sin(1.0 + i * 11 + j - 8), 3))
                    what = "compute_uv"
                else:
                    want = lambda d, j=j: (float(nm == "mesh_tan"), 6, 4, 2)[j - 19]
                    what = ("has_tangents", "index_count", "vertex_count", "triangle_count")[j - 19]
                chk("mesh", "%s at barycentric (u, v) of triangle %d%s" % (what, pr, " with tangents" if nm == "mesh_tan" else ""), o, j, E, want, wh, rel=1e-6, atol=1e-6)
    for j in range(2):
        ps, p, wh = follow("mesh_index_%d" % j)
        if ps:
            E = [(env_of(p, d), d) for d in ({"i0": a, "i1": b, "i2": c_} for a in (0, 3, 4, 2 ** 32 - 1) for b in (1, 3, 4, 5) for c_ in (2, 3, 4, 2 ** 31))]
            accepted("a mesh over 4 vertices%s" % ("", " with tangents")[j], ps, E, lambda d: max(d.values()) < 4, wh)
    for nm, nv, nt in SIZES:
        ps, p, wh = follow(nm)
        accepted("a triangle over %d vertices and %d tangents" % (nv, nt), ps, [({}, {})], lambda d: nv > 2 and nt in (0, nv), wh)

    # ------------------------------------------------ frames and offsets
    o, wh, p = go("frame")
    if o:
        E = []
        for s in itertools.product((-1, 1), repeat=3):
            for _ in range(4):
                E.append(dict(zip("xyz", unit([q * rnd.uniform(0.02, 1) for q in s]))))
        E += [dict(zip("xyz", q)) for q in ((1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (0.6, -0.8, 0.0), (-0.6, 0.8, 0.0))]
        E = [(env_of(p, d), d) for d in E]
        got = [[cc.concrete(out(o, i).t, e) for i in range(6)] for e, d in E]
        ctx.count("pointwise", len(E))
        if any(x is None for g in got for x in g):
            ctx.notes.append("tangent frame: undetermined")
        else:
            for what, f in (("tangent is a unit vector", lambda n_, a, b: dot(a, a) - 1), ("bitangent is a unit vector", lambda n_, a, b: dot(b, b) - 1), ("tangent is normal to the normal", lambda n_, a, b: dot(a, n_)),
                            ("bitangent is normal to the normal", lambda n_, a, b: dot(b, n_)), ("tangent is normal to bitangent", lambda n_, a, b: dot(a, b)), ("(tangent, bitangent, normal) is right-handed", lambda n_, a, b: dot(cross(a, b), n_) - 1)):
                worst = max(((abs(f([d["x"], d["y"], d["z"]], g[:3], g[3:])), d) for g, (e, d) in zip(got, E)), key=lambda z: z[0])
                ctx.ob(worst[0] < 1e-6, "frame", wh, "build_default_tangent_frame: %s fails at normal (%.4g, %.4g, %.4g) by %.3g" % (what, worst[1]["x"], worst[1]["y"], worst[1]["z"], worst[0]), what)
    for T in ("float", "double"):
        o, wh, p = go("offset_" + T)
        if not o:
            continue
        eps = 2.0 ** -23 if T == "float" else 2.0 ** -52
        E = []
        for k in range(4 * NS):
            e = rnd.choice((1e-6, 1e-3, 0.02, 0.5, 3.0, 200.0, 1e6))
            P_ = [rnd.uniform(-1, 1) * e for _ in range(3)]
            P_ = [struct_f(x) if T == "float" else x for x in P_]
            N_ = unit([rnd.gauss(0, 1) for _ in range(3)])
            d = dict(zip(("px", "py", "pz", "nx", "ny", "nz"), P_ + N_))
            E.append((env_of(p, d), d))
        memo = []
        for i in range(3):
            a = "xyz"[i]
            worst = None
            und = False
            for e, d in E:
                g = cc.concrete(out(o, i).t, e)
                if g is None:
                    und = True
                    continue
                delta, n_, x = g - d["p" + a], d["n" + a], d["p" + a]
                # away from the surface, by a little (in units of the coordinate's last place, or absolutely near zero)
                lim = 300 * eps * abs(x) + 1.01 * (2.0 ** -16 if T == "float" else 2.0 ** -32) if T == "float" else 70000 * eps * abs(x) + 1.01 * 2.0 ** -32
                bad_ = None
                if delta * n_ < 0:
                    bad_ = "moves it below the surface"
                elif abs(n_) > 0.05 and delta == 0:
                    bad_ = "does not move it"
                elif abs(delta) > lim:
                    bad_ = "moves it by %.3g" % delta
                if bad_ and worst is None:
                    worst = (bad_, d)
            ctx.count("pointwise", len(E))
            if und:
                ctx.notes.append("offset_intersection_: undetermined")
            else:
                ctx.ob(worst is None, "offset", wh, "offset_intersection_<%s> at (%s), normal (%s) %s along %s" % ((T, ", ".join("%.4g" % worst[1]["p" + q] for q in "xyz"), ", ".join("%.3g" % worst[1]["n" + q] for q in "xyz"), worst[0], a) if worst else (T, "", "", "", a)), "offset %s %s" % (T, a))

    # ------------------------------------------------ frustum
    o, wh, p = go("contains")
    if o:
        E = pts(p, 2 * NS)
        vec = lambda d, q: [d[q + a] for a in "xyz"]
        chk("frustum", "an empty frustum contains a direction", o, 0, E[:3], lambda d: 1.0, wh)
        chk("frustum", "contains", o, 1, E, lambda d: float(dot(vec(d, "a"), vec(d, "d")) >= 0 and dot(vec(d, "b"), vec(d, "d")) >= 0), wh)
        chk("frustum", "plane_count", o, 2, E[:1], lambda d: 2, wh)
        chk("frustum", "plane_count of an empty frustum", o, 3, E[:1], lambda d: 0, wh)
        for i in range(3):
            chk("frustum", "plane_normals", o, 4 + i, E, lambda d, i=i: d["b" + "xyz"[i]], wh)
    for nm, npl, tan in (("clip0", 0, False), ("clip1", 1, False), ("clip1t", 1, True), ("clip2", 2, False)):
        ps, full = W.paths(nm, limit=500, unroll=12, budget=3000000, setup=calm)
        ctx.count("paths", len(ps))
        fn = W.fns[nm]
        p = {q["n"]: tm.mk("par", q["d"]) for q in fn.params}
        wh = place(nm, fx.where_of(P, fn, last=True, skip=("Vec", "Triangle"))[0])
        if not full:
            ctx.notes.append("%s: only %d ways were followed" % (nm, len(ps)))
        na = 11 if npl == 1 else 3
        attr = [[round(math.sin(3.0 + i * 11 + j), 3) for j in range(11)] + [round(math.cos(5.0 + i * 7 + j), 3) for j in range(6)] for i in range(3)]
        seen, missed, worst = set(), 0, {}
        for k in range(5 * NS if npl else 4):
            tri = [[rnd.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
            pl = [unit([rnd.gauss(0, 1) for _ in range(3)]) for _ in range(npl)]
            n3 = cross([b - a for a, b in zip(tri[0], tri[1])], [b - a for a, b in zip(tri[0], tri[2])])
            if dot(n3, n3) < 0.05 or any(abs(dot(n_, q)) < 0.02 for n_ in pl for q in tri):
                continue
            d = {"p%d%s" % (i, a): tri[i][j] for i in range(3) for j, a in enumerate("xyz")}
            d.update({"ab"[i] + a: pl[i][j] for i in range(npl) for j, a in enumerate("xyz")})
            env = env_of(p, d)
            q, sure = fx.on_path(ps, env)
            if q is None or not q.ok:
                missed += 1
                continue
            seen.add(id(q))
            memo = {}
            val = lambda i: cc.concrete(q.load(tm.el(q.r.val, tm.c(i))).t, env, None, memo)
            cnt = val(0)
            if cnt is None:
                missed += 1
                continue
            area = 0.0
            say = lambda what: worst.setdefault(what.split(":")[0], "%s (triangle %s, planes %s)" % (what, [[round(z, 3) for z in v] for v in tri], [[round(z, 3) for z in v] for v in pl]))
            for t in range(min(int(cnt), 3)):
                vs = []
                for j in range(3):
                    q0 = 1 + TRI * (3 * t + j)
                    X = [val(q0 + z) for z in range(3)]
                    if any(z is None for z in X):
                        missed += 1
                        break
                    vs.append(X)
                    bc, off = bary(tri, X)
                    if off > 1e-6 or min(bc) < -1e-6:
                        say("a vertex outside the triangle")
                    if any(dot(n_, X) < -1e-6 for n_ in pl):
                        say("a vertex outside the frustum")
                    for z in list(range(3, na)) + (list(range(11, 17)) if tan else []):
                        w_ = sum(b_ * attr[i][z] for i, b_ in enumerate(bc))
                        g = val(q0 + z)
                        if g is not None and abs(g - w_) > 1e-5:
                            say("%s of a new vertex is not interpolated: %.5g for %.5g" % ((VERT + TANG)[z], g, w_))
                if len(vs) < 3:
                    break
                c_ = cross([b - a for a, b in zip(vs[0], vs[1])], [b - a for a, b in zip(vs[0], vs[2])])
                if dot(c_, n3) < -1e-9:
                    say("a piece is turned over")
                area += 0.5 * math.sqrt(dot(c_, c_))
                if bool(val(190 + t)) != tan:
                    say("tangents are %s" % ("lost" if tan else "made up"))
            want = polyclip(tri, pl)
            if int(cnt) <= 3 and abs(area - want) > 1e-5:
                say("the pieces' area differs from the area inside: %.5g for %.5g" % (area, want))
        ctx.count("ways_met", len(seen))
        for kk, v in worst.items():
            ctx.ob(False, "clip", wh, "clip_triangle: " + v, kk)
        if not worst:
            if seen and missed == 0:
                ctx.ob(True, "clip", wh, nm, nm)
            elif missed:
                ctx.notes.append("%s: %d points not followed" % (nm, missed))
                ctx.count("undetermined")

    # ------------------------------------------------ trajectories
    for n in (1, 2, 3):
        o, wh, p = go("arc%d" % n)
        if not o:
            continue
        E = pts(p, NS // 2, t=(0.0, 1.0))
        E += [(env_of(p, d), d) for d in (dict({k: rnd.uniform(-2, 2) for k in p}, t=t) for t in [i / (n - 1) if n > 1 else 0.5 for i in range(n)])]
        f = lagrange
        for j, a in enumerate("xyz"):
            chk("arc", "TrajectoryArc::evaluate's %s of %d samples" % (a, n), o, j, E, lambda d, a=a: f([d["s%d%s" % (i, a)] for i in range(n)], d["t"]), wh, rel=1e-4, atol=1e-4)
        chk("arc", "sample_count", o, 3, E[:1], lambda d: n, wh)
        if n == 1:
            chk("arc", "crossings of a fixed point", o, 4, E[:1], lambda d: 0, wh)
    o, wh, p = go("arc0")
    if o:
        for j, (what, v) in enumerate((("an arc without samples is accepted", 0.0), ("number of intervals in a frustum without planes", 1.0), ("start of the interval in a frustum without planes", 0.0), ("end of the interval in a frustum without planes", 1.0))):
            chk("arc", what, o, j, [({}, {})], lambda d, v=v: v, wh)

    for n in (4, 5, 6):
        ps, p, wh = follow("arc%d" % n)
        missed, okn, worst = 0, 0, None
        for k in range(NS):
            t = k % n / (n - 1) if k < n else rnd.uniform(0, 1)
            d = dict({q: rnd.uniform(-2, 2) for q in p}, t=t)
            env = env_of(p, d)
            q, sure = fx.on_path(ps, env)
            g = [cc.concrete(q.load(tm.el(q.r.val, tm.c(i))).t, env) for i in range(4)] if q is not None and q.ok else [None]
            if any(x is None for x in g):
                missed += 1
                continue
            okn += 1
            want = [spline([d["s%d%s" % (i, a)] for i in range(n)], t) for a in "xyz"] + [n]
            for a, x, y in zip(("x", "y", "z", "sample count"), g, want):
                if abs(x - y) > 1e-4:
                    worst = worst or "%s at t = %.4g is %.6g; by definition %.6g" % (a, t, x, y)
        close("arc", "evaluate of %d samples" % n, wh, missed, worst, okn)
    for n in (2, 3):
        ps, p, wh = follow("cross%d" % n)
        missed, okn, worst = 0, 0, None
        for k in range(3 * NS):
            S = [[rnd.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
            N_ = unit([rnd.gauss(0, 1) for _ in range(3)])
            f = lambda t: dot(N_, [lagrange([s[j] for s in S], t) for j in range(3)])
            if abs(f(0)) < 1e-2 or abs(f(1)) < 1e-2:
                continue
            want = real_roots(f, 0.0, 1.0)
            if any(abs(f(r + 1e-3) - f(r - 1e-3)) < 1e-4 for r in want) or (n == 3 and not want and min(abs(f(i / 200)) for i in range(201)) < 1e-3):
                continue
            d = {"s%d%s" % (i, a): S[i][j] for i in range(n) for j, a in enumerate("xyz")}
            d.update(dict(zip(("nx", "ny", "nz"), N_)))
            g = values(ps, p, d, 1)
            if g is None:
                missed += 1
                continue
            okn += 1
            if len(g) != len(want) or any(abs(a - b) > 1e-4 for a, b in zip(g, want)):
                worst = worst or "samples %s, normal %s: crossings %s; by definition %s" % ([[round(z, 3) for z in s] for s in S], [round(z, 3) for z in N_], [round(z, 5) for z in g], [round(z, 5) for z in want])
        close("crossings", "find_plane_crossings of %d samples" % n, wh, missed, worst, okn)
    # the cubic, and the spline given a cubic solver
    ps, p, wh = follow("cubic")
    named = any(f.n == "solve_cubic_" for f in P.defs)
    if named:
        missed, okn, worst = 0, 0, None
        CASES = []
        for k in range(6 * NS):
            a, b, c_, d_ = (rnd.uniform(-2, 2) for _ in range(4))
            if k % 4 == 0:  # three real roots
                rs = [rnd.uniform(-1.5, 1.5) for _ in range(3)]
                b, c_, d_ = -a * sum(rs), a * (rs[0] * rs[1] + rs[0] * rs[2] + rs[1] * rs[2]), -a * rs[0] * rs[1] * rs[2]
            if k % 9 == 1:
                a = 0.0
            if k % 27 == 1:
                b = 0.0
            CASES.append((a, b, c_, d_, -2.0, 2.0) if k % 3 else (a, b, c_, d_, 0.0, 0.75))
        DBL = [(1.0, 0.5, 0.25), (2.0, -0.5, 1.0), (-1.0, 0.25, -1.5), (4.0, 1.0, 1.0)]
        for a, r1, r2 in DBL:
            CASES.append((a, -a * (2 * r1 + r2), a * (r1 * r1 + 2 * r1 * r2), -a * r1 * r1 * r2, -2.0, 2.0))
        for cs in CASES:
            a, b, c_, d_, lo, hi = cs
            f = lambda t: ((a * t + b) * t + c_) * t + d_
            df = lambda t: (3 * a * t + 2 * b) * t + c_
            dbl = cs in CASES[-len(DBL):]
            if dbl:
                want = sorted(set((DBL[CASES[-len(DBL):].index(cs)][1:])))
            else:
                want = real_roots(f, lo, hi)
                if any(abs(df(r)) < 0.05 for r in want) or abs(f(lo)) < 1e-2 or abs(f(hi)) < 1e-2:
                    continue
                ext = [t for t in [lo + (hi - lo) * i / 400 for i in range(401)] if abs(f(t)) < 1e-3]
                if any(min([abs(t - r) for r in want] or [9]) > 0.05 for t in ext):
                    continue
            g = values(ps, p, dict(zip(("a", "b", "c", "d", "lo", "hi"), cs)), 1)
            if g is None:
                missed += 1
                continue
            okn += 1
            if len(g) != len(want) or any(abs(x - y) > 1e-3 for x, y in zip(g, want)):
                worst = worst or "%.4g t^3 %+.4g t^2 %+.4g t %+.4g on [%g, %g]: roots %s; by definition %s" % (a, b, c_, d_, lo, hi, [round(z, 4) for z in g], [round(z, 4) for z in want])
        close("crossings", "solve_cubic_", wh, missed, worst, okn)

        def cubic(I, n, f, this, args, argn, on, st, fr):
            ret = f.ret
            a_ = I.tmp(n, fr, "roots")
            I.kill_sub(st, a_)
            from sa import models as mo
            mo.set_size(I, st, a_, tm.c(1))
            I.store(st, tm.el(a_, tm.c(0)), tm.settype(tm.call("verif_root", *args), ("f",)))
            return a_
        cc.FUN["verif_root"] = lambda a, b, c_, d_, lo, hi: lo + (hi - lo) * (0.3 + 0.1 * math.sin(1e-3 * (a + 2 * b + 3 * c_ + 4 * d_)))
        ps, p, wh = follow("cross4", models={"huira::TrajectoryArc::solve_cubic_": (cubic, True)})
        missed, okn, worst = 0, 0, None
        for k in range(NS):
            S = [[rnd.uniform(-1, 1) for _ in range(3)] for _ in range(4)]
            N_ = unit([rnd.gauss(0, 1) for _ in range(3)])
            d = {"s%d%s" % (i, a): S[i][j] for i in range(4) for j, a in enumerate("xyz")}
            d.update(dict(zip(("nx", "ny", "nz"), N_)))
            # local polynomials of the spline along the normal
            y = [dot(N_, s) for s in S]
            want = []
            for i in range(3):
                h = 1 / 3
                q = [spline(y, i * h + u) for u in (1e-9, h / 3, 2 * h / 3, h - 1e-9)]
                # divided differences: the cubic through four points
                xs = [0, h / 3, 2 * h / 3, h]
                cf = list(q)
                for m in range(1, 4):
                    for z in range(3, m - 1, -1):
                        cf[z] = (cf[z] - cf[z - 1]) / (xs[z] - xs[z - m])
                A3 = cf[3]
                B2 = cf[2] - cf[3] * (xs[0] + xs[1] + xs[2])
                C1 = cf[1] - cf[2] * (xs[0] + xs[1]) + cf[3] * (xs[0] * xs[1] + xs[0] * xs[2] + xs[1] * xs[2])
                D0 = cf[0] - cf[1] * xs[0] + cf[2] * xs[0] * xs[1] - cf[3] * xs[0] * xs[1] * xs[2]
                want.append(i * h + cc.FUN["verif_root"](A3, B2, C1, D0, 0, h))
            g = values(ps, p, d, 1)
            if g is None:
                missed += 1
                continue
            okn += 1
            if len(g) != 3 or any(abs(a - b) > 1e-5 for a, b in zip(g, want)):
                worst = worst or "samples %s: crossings %s; by definition %s" % ([[round(z, 3) for z in s] for s in S], [round(z, 6) for z in g], [round(z, 6) for z in want])
        close("crossings", "find_plane_crossings of a spline", wh, missed, worst, okn)
    else:
        ctx.notes.append("no cubic solver of a known name: crossings of splines are not compared")
    for n, m in ((2, 1), (2, 2), (3, 1)):
        ps, p, wh = follow("cliparc%d_%d" % (n, m), limit=1500)
        missed, okn, worst = 0, 0, None
        for k in range(3 * NS):
            S = [[rnd.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
            pl = [unit([rnd.gauss(0, 1) for _ in range(3)]) for _ in range(m)]
            f = lambda t: min(dot(N_, [lagrange([s[j] for s in S], t) for j in range(3)]) for N_ in pl)
            d = {"s%d%s" % (i, a): S[i][j] for i in range(n) for j, a in enumerate("xyz")}
            d.update({"ab"[i] + a: pl[i][j] for i in range(m) for j, a in enumerate("xyz")})
            g = values(ps, p, d, 2)
            if g is None:
                missed += 1
                continue
            okn += 1
            iv = list(zip(g[::2], g[1::2]))
            for i in range(101):
                t = i / 100
                if abs(f(t)) < 0.02:
                    continue
                if any(a <= t <= b for a, b in iv) != (f(t) > 0):
                    worst = worst or "samples %s, planes %s: inside for t in %s, but at t = %g the arc is %s" % ([[round(z, 3) for z in s] for s in S], [[round(z, 3) for z in s] for s in pl], [(round(a, 4), round(b, 4)) for a, b in iv], t, "inside" if f(t) > 0 else "outside")
        close("clip-arc", "clip_arc of %d samples by %d plane(s)" % (n, m), wh, missed, worst, okn)

    if any(f.key.endswith("Frustum::intersect_intervals_") for f in P.fns.values()):
        for x, y in INTER:
            ps, p, wh = follow("inter%d%d" % (x, y))
            missed, okn, worst = 0, 0, None
            for k in range(2 * NS):
                a, b = (sorted(rnd.sample(range(1, 40), 2 * n)) for n in (x, y))
                if set(a) & set(b) and k % 4:
                    continue
                d = {"%s%d" % (c, i): v / 40 for c, l in (("a", a), ("b", b)) for i, v in enumerate(l)}
                g = values(ps, p, d, 2)
                if g is None:
                    missed += 1
                    continue
                okn += 1
                iv = list(zip(g[::2], g[1::2]))
                for i in range(40):
                    t = (i + 0.5) / 40
                    if any(u <= t <= v for u, v in iv) != all(any(l[i] / 40 <= t <= l[i + 1] / 40 for i in range(0, len(l), 2)) for l in (a, b)):
                        worst = worst or "%s and %s (in 1/40) have %s in common; wrong at %g" % (a, b, [(u * 40, v * 40) for u, v in iv], t * 40)
            close("clip-arc", "common parts of %d and %d intervals" % (x, y), wh, missed, worst, okn)
    else:
        ctx.notes.append("no intersection of intervals of a known name: not compared")

    # ------------------------------------------------ cut-off radius
    o, wh, p = go("lut")
    if o:
        E = []
        for k in range(3 * NS):
            d = {"m": rnd.choice([0.0, 1.0, 1e-4, 5.0]), "q": rnd.choice([0.0, 1.0, 1e-3]), "area": rnd.uniform(0.5, 2), "thr": rnd.choice([0.1, 0.5]), "e0": rnd.choice([1.0, 2.0, 0.0]), "e1": rnd.uniform(0.5, 2), "e2": rnd.choice([0.1, -1.0, 3.0]), "irr": 10 ** rnd.uniform(-1, 5), "mn": rnd.choice([0, 1, 2, 3])}
            E.append((env_of(p, d), d))

        def radius(d):
            best = None
            for r in (1, 2):
                s = 0.0
                for y in range(5):
                    for x in range(5):
                        if max(abs(x - 2), abs(y - 2)) == r:
                            for c_ in range(3):
                                en = d["e%d" % c_]
                                s = max(s, kv(x, y, c_, d["m"], d["q"]) * (d["area"] / en if en > 0 else 0))
                t_ = s * d["irr"] / d["thr"]
                if s > 0 and abs(t_ - 1) < 1e-3:
                    return None
                if s > 0 and t_ >= 1:
                    best = r
            return max(best, d["mn"]) if best is not None else d["mn"]
        ps, p, wh = follow("lut")
        missed, okn, worst = 0, 0, None
        for e, d in E:
            want = radius(d)
            if want is None:
                continue
            q, sure = fx.on_path(ps, e)
            g = cc.concrete(q.load(tm.el(q.r.val, tm.c(1))).t, e) if q is not None and q.ok else None
            if g is None:
                missed += 1
                continue
            okn += 1
            if g != want:
                worst = worst or "%g for %g at %s" % (g, want, ", ".join("%s=%.4g" % z for z in d.items()))
        close("psf-radius", "effective radius of a point source", wh, missed, worst, okn)
        chk("psf-radius", "rings of a PSF without radius", o, 2, E[:1], lambda d: 0, wh)
        chk("psf-radius", "effective radius without rings", o, 3, E[:8], lambda d: d["mn"], wh)


def struct_f(x):
    import struct
    return struct.unpack("<f", struct.pack("<f", x))[0]
