"""M07: image access, sampling, convolution and pixel conversion compute what their names say.

Value graphs of witnesses that build small images with symbolic pixels, and use them through the public interface at
symbolic positions; compared pointwise with the definitions on every side of every guard. FFTW is modelled as the
discrete Fourier transform it computes.
"""
import cmath
import math
import random
from sa import concrete as cc
from sa import fx
from sa import terms as tm
from sa.alg import E

NAN, INF = float("nan"), float("inf")
INTS = {"std::uint8_t": (0, 255), "std::uint16_t": (0, 65535), "std::uint32_t": (0, 2 ** 32 - 1), "std::int8_t": (-128, 127), "std::int16_t": (-32768, 32767)}


# ---------------------------------------------------------------- FFTW as the transform it computes
def _dft(n0, n1, k0, k1, v):
    s = 0
    for j0 in range(n0):
        for j1 in range(n1):
            x = v[j0 * n1 + j1]
            if x:
                s += x * cmath.exp(-2j * math.pi * (j0 * k0 / n0 + j1 * k1 / n1))
    return s


def _idft(n0, n1, j0, j1, *v):
    h = n1 // 2 + 1
    s = 0.0
    for k0 in range(n0):
        for k1 in range(h):
            i = 2 * (k0 * h + k1)
            z = complex(v[i], v[i + 1]) * cmath.exp(2j * math.pi * (j0 * k0 / n0 + j1 * k1 / n1))
            s += z.real * (1 if k1 == 0 or 2 * k1 == n1 else 2)
    return s


cc.FUN["verif_dft_re"] = lambda n0, n1, k0, k1, *v: _dft(n0, n1, k0, k1, v).real
cc.FUN["verif_dft_im"] = lambda n0, n1, k0, k1, *v: _dft(n0, n1, k0, k1, v).imag
cc.FUN["verif_idft"] = _idft


def fft_models(plans, sizes):
    F4 = ("f", 32)

    def alloc(I, n, f, this, args, argn, on, st, fr):
        a = tm.el(I.tmp(n, fr, "fft"), tm.c(0))
        if tm.isc(args[0]):
            sizes[a] = args[0].a[0]
        return a

    def memset(I, n, f, this, args, argn, on, st, fr):
        a = args[0]
        if a in sizes and tm.isc(args[1]) and args[1].a[0] == 0 and tm.isc(args[2]) and args[2].a[0] == 4 * sizes[a]:
            I.kill_sub(st, a.a[0])
            for i in range(sizes[a]):
                I.store(st, tm.padd(a, tm.c(i)), tm.c(0.0))
            return a
        return NotImplemented

    def plan(kind):
        def f_(I, n, f, this, args, argn, on, st, fr):
            p = tm.call("verif_fft_plan_" + kind, args[0], args[1], args[2], args[3])
            plans[p] = (kind, args[0], args[1], args[2], args[3])
            return p
        return f_

    def execute(I, n, f, this, args, argn, on, st, fr):
        p = plans.get(args[0])
        if p is None or not (tm.isc(p[1]) and tm.isc(p[2])) or any(x.op != "el" for x in p[3:]):
            return NotImplemented
        kind, n0, n1, src, dst = p[0], p[1].a[0], p[2].a[0], p[3], p[4]
        h = n1 // 2 + 1
        cidx = [(k0, k1) for k0 in range(n0) for k1 in range(h)]
        if kind == "r2c":
            v = [I.load(st, tm.padd(src, tm.c(i)), F4) for i in range(n0 * n1)]
            I.kill_sub(st, dst.a[0])
            for i, (k0, k1) in enumerate(cidx):
                for j, nm in ((0, "verif_dft_re"), (1, "verif_dft_im")):
                    I.store(st, tm.el(tm.padd(dst, tm.c(i)), tm.c(j)), tm.call(nm, tm.c(n0), tm.c(n1), tm.c(k0), tm.c(k1), *v))
        else:
            v = []
            for i in range(len(cidx)):
                v += [I.load(st, tm.el(tm.padd(src, tm.c(i)), tm.c(j)), F4) for j in (0, 1)]
            I.kill_sub(st, dst.a[0])
            for j0 in range(n0):
                for j1 in range(n1):
                    I.store(st, tm.padd(dst, tm.c(j0 * n1 + j1)), tm.call("verif_idft", tm.c(n0), tm.c(n1), tm.c(j0), tm.c(j1), *v))
        return tm.c(0)
    m = {"fftwf_alloc_real": alloc, "fftwf_alloc_complex": alloc, "memset": memset, "std::memset": memset, "fftwf_plan_dft_r2c_2d": plan("r2c"), "fftwf_plan_dft_c2r_2d": plan("c2r"), "fftwf_execute": execute}
    return {k: (v, False) for k, v in m.items()}


PX = "float p0, float p1, float p2, float p3, float p4, float p5"
FILL32 = "Image<float> im(3, 2); im(0, 0) = p0; im(1, 0) = p1; im(2, 0) = p2; im(0, 1) = p3; im(1, 1) = p4; im(2, 1) = p5; "
KERNELS = {"1x1": (1, 1), "3x3": (3, 3), "2x2": (2, 2), "3x1": (3, 1), "1x4": (1, 4), "5x5": (5, 5), "26x1": (26, 1), "6x6": (6, 6), "4x7": (4, 7), "1x27": (1, 27)}


def text():
    t = ['#include "huira/huira.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, 24>;"]

    def w(name, params, body):
        t.append("A %s(%s) { A o{}; %s return o; }" % (name, params.rstrip(", "), body))
    # access
    w("ctor", "float v", "Image<float> a; Image<float> b(3, 2); Image<float> c(3, 2, v); Image<float> d(Resolution{3, 2}); Image<float> e(Resolution{3, 2}, v); "
      "o[0] = a.size(); o[1] = a.empty(); o[2] = bool(a); o[3] = b.size(); o[4] = b.width(); o[5] = b.height(); o[6] = b.empty(); o[7] = b(2, 1); o[8] = c(2, 1); o[9] = c(0, 0); o[10] = d(1, 1); o[11] = e(2, 0); o[12] = e.resolution().width; o[13] = e.resolution().height; o[14] = d.size(); o[15] = e.size(); o[16] = bool(c); o[17] = e.width(); o[18] = d.height(); o[19] = c.resolution().x; o[20] = c.resolution().y;")
    w("fill", "float v, float q", "Image<float> a(3, 2, q); a.fill(v); o[0] = a(0, 0); o[1] = a(2, 1); a.reset(); o[2] = a(1, 1); a.reset(q); o[3] = a(1, 0); a.set_sensor_bit_depth(12); o[4] = a.sensor_bit_depth(); o[5] = a.size(); a.clear(); o[6] = a.size(); o[7] = a.width(); o[8] = a.height(); o[9] = a.empty();")
    w("copy", PX, FILL32 + "im.set_sensor_bit_depth(9); Image<float> a(im); Image<float> b; b = im; im(1, 1) = 0; o[0] = a(1, 1); o[1] = b(1, 1); o[2] = b.width(); o[3] = b.height(); o[4] = a.sensor_bit_depth(); o[5] = b.sensor_bit_depth(); Image<float> c(std::move(a)); o[6] = c(2, 0); o[7] = c.width(); o[8] = c.height(); o[9] = b.resolution().x; o[10] = b.resolution().y;")
    w("linear", PX, FILL32 + "for (std::size_t i = 0; i < 6; ++i) { o[i] = im[i]; o[6 + i] = im.data()[i]; } o[12] = im(Pixel{2.7f, 1.2f}); const auto& k = im; o[13] = k(2, 1); o[14] = k[3]; o[15] = k(Pixel{0.5f, 1.0f}); o[16] = k.data()[4]; im(Pixel{1.0f, 0.0f}) = 5; o[17] = im[1]; im[2] = 6; o[18] = im(2, 0);")
    for k, c in (("at", ""), ("cat", "const auto& k = im; ")):
        v = "k" if c else "im"
        w(k + "_xy", PX + ", int x, int y", FILL32 + c + "try { o[0] = %s.at(x, y); o[1] = 1; } catch (...) { }" % v)
        w(k + "_px", PX + ", float x, float y", FILL32 + c + "try { o[0] = %s.at(Pixel{x, y}); o[1] = 1; } catch (...) { }" % v)
        w(k + "_i", PX + ", std::size_t i", FILL32 + c + "try { o[0] = %s.at(i); o[1] = 1; } catch (...) { }" % v)
    w("plus", PX, FILL32 + "Image<float> b(3, 2); b(0, 0) = p5; b(1, 0) = p4; b(2, 0) = p3; b(0, 1) = p2; b(1, 1) = p1; b(2, 1) = p0; auto c = im + b; o[0] = c(0, 0); o[1] = c(1, 0); o[2] = c(2, 0); o[3] = c(0, 1); o[4] = c(1, 1) * 2; o[5] = c(2, 1); o[6] = c.width(); o[7] = c.height(); "
      "Image<float> d(2, 3); try { auto e = im + d; o[8] = e.size(); } catch (...) { o[9] = 1; }")
    w("channel", PX, "Image<RGB> im(2, 1); im(0, 0) = RGB{p0, p1, p2}; im(1, 0) = RGB{p3, p4, p5}; for (std::size_t c = 0; c < 3; ++c) { auto k = im.get_channel(c); o[2 * c] = k(0, 0); o[2 * c + 1] = k(1, 0); o[6] = k.width(); o[7] = k.height(); } try { auto k = im.get_channel(3); o[8] = k.size(); } catch (...) { o[9] = 1; } "
      "Image<Vec3<float>> v(2, 1); v(0, 0) = Vec3<float>{p0, p1, p2}; v(1, 0) = Vec3<float>{p3, p4, p5}; auto q = v.get_channel(2); o[10] = q(0, 0); o[11] = q(1, 0); try { auto k = v.get_channel(3); o[12] = k.size(); } catch (...) { o[13] = 1; } "
      "Image<float> f(2, 1); f(0, 0) = p0; f(1, 0) = p1; auto g = f.get_channel(0); o[14] = g(0, 0); o[15] = g(1, 0); try { auto k = f.get_channel(1); o[16] = k.size(); } catch (...) { o[17] = 1; }")
    # sampling
    for m in ("Clamp", "Repeat", "Mirror"):
        w("bil_" + m, PX + ", float u, float v", FILL32 + "o[0] = im.sample_bilinear<WrapMode::%s>(u, v); o[1] = im.sample_nearest_neighbor<WrapMode::%s>(u, v);" % (m, m))
    w("bil_rgb", PX + ", float u", "Image<RGB> im(2, 1); im(0, 0) = RGB{p0, p1, p2}; im(1, 0) = RGB{p3, p4, p5}; RGB s = im.sample_bilinear<WrapMode::Clamp>(u, 0.3f); RGB r = im.sample_nearest_neighbor<WrapMode::Clamp>(u, 0.3f); for (std::size_t i = 0; i < 3; ++i) { o[i] = s[i]; o[3 + i] = r[i]; }")
    w("bil_rgb2", PX + ", float v", "Image<RGB> im(1, 2); im(0, 0) = RGB{p0, p1, p2}; im(0, 1) = RGB{p3, p4, p5}; RGB s = im.sample_bilinear<WrapMode::Clamp>(0.3f, v); for (std::size_t i = 0; i < 3; ++i) { o[i] = s[i]; }")
    w("bil_vec", PX + ", float u", "Image<Vec3<float>> im(2, 1); im(0, 0) = Vec3<float>{p0, p1, p2}; im(1, 0) = Vec3<float>{p3, p4, p5}; auto s = im.sample_bilinear<WrapMode::Clamp>(u, 0.3f); o[0] = s.x; o[1] = s.y; o[2] = s.z;")
    w("bil_vec2", PX + ", float v", "Image<Vec3<float>> im(1, 2); im(0, 0) = Vec3<float>{p0, p1, p2}; im(0, 1) = Vec3<float>{p3, p4, p5}; auto s = im.sample_bilinear<WrapMode::Clamp>(0.3f, v); o[0] = s.x; o[1] = s.y; o[2] = s.z;")
    w("bil_one", "float p, float u, float v", "Image<float> im(1, 1, p); o[0] = im.sample_bilinear<WrapMode::Repeat>(u, v); o[1] = im.sample_nearest_neighbor<WrapMode::Mirror>(u, v); Image<float> e; o[2] = e.sample_bilinear(u, v); o[3] = e.sample_nearest_neighbor(u, v);")
    # convolution
    for k, (kw, kh) in KERNELS.items():
        body = "Image<float> im(4, 3); "
        body += "".join("im(%d, %d) = %s; " % (x, y, "p%d" % ((x + 4 * y) % 6) if (x, y) != (2, 1) else "q") for y in range(3) for x in range(4))
        body += "Image<float> k(%d, %d, 0.0f); " % (kw, kh)
        body += "".join("k(%d, %d) = %s; " % (x, y, knl(x, y)) for y in range(kh) for x in range(kw))
        body += "im.set_sensor_bit_depth(11); im.convolve(k); for (int y = 0; y < 3; ++y) { for (int x = 0; x < 4; ++x) { o[static_cast<std::size_t>(4 * y + x)] = im(x, y); } } o[12] = im.width(); o[13] = im.height(); o[14] = im.sensor_bit_depth();"
        w("conv_" + k, PX + ", float q, float a, float b, float c", body)
    for k, (kw, kh) in (("3x3", (3, 3)), ("6x5", (6, 5)), ("1x1", (1, 1))):
        body = "Image<RGB> im(2, 1); im(0, 0) = RGB{p0, p1, p2}; im(1, 0) = RGB{p3, p4, p5}; Image<RGB> k(%d, %d, RGB{0.0f}); " % (kw, kh)
        body += "".join("k(%d, %d) = RGB{%s, 2 * (%s), 3 * (%s)}; " % ((x, y) + (knl(x, y),) * 3) for y in range(kh) for x in range(kw))
        body += "im.convolve(k); for (std::size_t i = 0; i < 3; ++i) { o[i] = im(0, 0)[i]; o[3 + i] = im(1, 0)[i]; }"
        w("convrgb_" + k, PX + ", float a, float b, float c", body)
    # colour and pixel conversion
    w("srgb", "float x", "o[0] = srgb_to_linear(x); o[1] = linear_to_srgb(x);")
    w("gamma", "float x, float g", "o[0] = gamma_to_linear(x, g);")
    w("bundle", PX, "Image<RGB> im(2, 1); im(0, 0) = RGB{p0, p1, p2}; im(1, 0) = RGB{p3, p4, p5}; Image<float> al(2, 1, p0); ImageBundle<RGB> b(im, al); auto l = srgb_to_linear(b); auto s = linear_to_srgb(b); for (std::size_t i = 0; i < 3; ++i) { o[i] = l.image(0, 0)[i]; o[3 + i] = l.image(1, 0)[i]; o[6 + i] = s.image(0, 0)[i]; o[9 + i] = s.image(1, 0)[i]; } "
      "o[12] = l.alpha(1, 0); o[13] = s.alpha(0, 0); o[14] = l.color_space == ColorSpaceHint::Linear; o[15] = s.color_space == ColorSpaceHint::sRGB; o[16] = l.image.width(); o[17] = s.image.height();")
    w("bundle1", PX, FILL32 + "ImageBundle<float> b(im, im); auto l = srgb_to_linear(b); auto s = linear_to_srgb(b); o[0] = l.image(2, 1); o[1] = l.image(1, 0); o[2] = s.image(2, 1); o[3] = s.image(1, 0); o[4] = l.alpha(1, 0); o[5] = s.alpha(2, 1); o[6] = l.color_space == ColorSpaceHint::Linear; o[7] = s.color_space == ColorSpaceHint::sRGB; o[8] = l.image.width(); o[9] = s.image.height();")
    w("normals", PX, "Image<Vec3<float>> v(2, 1); v(0, 0) = Vec3<float>{p0, p1, p2}; v(1, 0) = Vec3<float>{p3, p4, p5}; auto m = normal_map(v); for (std::size_t i = 0; i < 3; ++i) { o[i] = m(0, 0)[i]; o[3 + i] = m(1, 0)[i]; } o[6] = m.width(); o[7] = m.height();")
    w("depths", PX, FILL32 + "auto m = depth_map(im); for (std::size_t i = 0; i < 6; ++i) { o[i] = m[i][0]; o[6 + i] = m[i][2]; } o[12] = m[4][1]; o[13] = m.width(); o[14] = m.height();")
    w("spectral", PX, "Image<RGB> im(2, 1); im(0, 0) = RGB{p0, p1, p2}; im(1, 0) = RGB{p3, p4, p5}; auto m = rgb_to_spectral<RGB>(im); for (std::size_t i = 0; i < 3; ++i) { o[i] = m(0, 0)[i]; o[3 + i] = m(1, 0)[i]; } auto s = rgb_to_spectral<Visible8>(im, [](RGB c) { return Visible8{c[1]}; }); o[6] = s(0, 0)[0]; o[7] = s(1, 0)[7]; o[8] = s.width(); o[9] = s.height();")
    for i, (n, (lo, hi)) in enumerate(INTS.items()):
        w("f2i_%d" % i, "float x, float a, float b", "o[0] = float_to_integer<%s>(x); o[1] = float_to_integer<%s>(x, a, b); o[2] = convert_float_to_pixel<%s>(x); o[3] = convert_vec3_to_pixel<%s>(Vec3<float>{x, a, b});" % ((n,) * 4) if not lo else "o[0] = float_to_integer<%s>(x); o[1] = float_to_integer<%s>(x, a, b); o[2] = -1; o[3] = -1;" % (n, n))
        w("i2f_%d" % i, "%s x, float a, float b" % n, "o[0] = integer_to_float<%s>(x); o[1] = integer_to_float<%s>(x, a, b);" % (n, n) + (" o[2] = convert_pixel_to_float<%s>(x); auto v = convert_pixel_to_vec3<%s>(x); o[3] = v.x; o[4] = v.y; o[5] = v.z;" % (n, n) if not lo else ""))
    w("pix", "float x, float y, float z, double d", "o[0] = convert_float_to_pixel<float>(x); o[1] = convert_float_to_pixel<double>(x); auto a = convert_float_to_pixel<Vec3<float>>(x); o[2] = a.x; o[3] = a.y; o[4] = a.z; auto b = convert_vec3_to_pixel<Vec3<float>>(Vec3<float>{x, y, z}); o[5] = b.x; o[6] = b.y; o[7] = b.z; auto c = convert_vec3_to_pixel<Vec3<double>>(Vec3<float>{x, y, z}); o[8] = c.x; o[9] = c.y; o[10] = c.z; "
      "o[11] = convert_vec3_to_pixel<float>(Vec3<float>{x, y, z}); o[12] = convert_pixel_to_float<float>(x); o[13] = convert_pixel_to_float<Vec3<float>>(Vec3<float>{x, y, z}); o[14] = convert_pixel_to_float<Vec3<double>>(Vec3<double>{x, y, z}); auto e = convert_pixel_to_vec3<Vec3<double>>(Vec3<double>{x, y, z}); o[15] = e.x; o[16] = e.y; o[17] = e.z; auto g = convert_pixel_to_vec3<float>(x); o[18] = g.x; o[19] = g.y; o[20] = g.z; auto h = convert_pixel_to_vec3<Vec3<float>>(Vec3<float>{x, y, z}); o[21] = h.x; o[22] = h.y; o[23] = h.z;")
    w("pix2", "float x, float y, float z, double d", "auto a = convert_float_to_pixel<Vec3<double>>(x); o[0] = a.x; o[1] = a.y; o[2] = a.z; o[3] = convert_vec3_to_pixel<double>(Vec3<float>{x, y, z}); o[4] = convert_pixel_to_float<double>(d); auto g = convert_pixel_to_vec3<double>(d); o[5] = g.x; o[6] = g.y; o[7] = g.z;")
    # sizes and positions
    w("res", "int p, int q, float s, float t", "Resolution r{p, q}; Resolution c(r); Resolution e{1, 1}; e = r; o[0] = c.x; o[1] = c.y; o[2] = e.x; o[3] = e.y; o[4] = e.width; o[5] = c.height; auto a = r * Vec2<float>{s, t}; o[6] = a.x; o[7] = a.y; auto b = r * s; o[8] = b.x; o[9] = b.y; auto d = r / Vec2<float>{s, t}; o[10] = d.x; o[11] = d.y; auto f = r / s; o[12] = f.x; o[13] = f.y; "
      "auto g = Vec2<float>{s, t} * r; o[14] = g.x; o[15] = g.y; auto h = s * r; o[16] = h.x; o[17] = h.y; auto k = Vec2<float>{s, t} / r; o[18] = k.x; o[19] = k.y; auto l = s / r; o[20] = l.x; o[21] = l.y; e.x = 7; e.y = 9; o[22] = e.width; o[23] = e.height;")
    w("res_eq", "int p, int q, int s, int t", "o[0] = Resolution{p, q} == Resolution{s, t};")
    w("pixel", "float x, float y, float s, float t", "Pixel a{x, y}, b{s, t}; auto c = a + b; o[0] = c.x; o[1] = c.y; c = a - b; o[2] = c.x; o[3] = c.y; c = a * s; o[4] = c.x; o[5] = c.y; c = s * a; o[6] = c[0]; o[7] = c[1]; a[0] = s; a[1] = t; o[8] = a.x; o[9] = a.y; Pixel z; o[10] = z.x; o[11] = z.y;")
    t.append("}")
    return "\n".join(t)


def knl(x, y):
    """Kernel entries: a few unknowns and distinct constants."""
    return {(0, 0): "a", (1, 0): "b", (0, 2): "c"}.get((x, y), "%.2ff" % (((x * 7 + y * 5) % 11) / 8 - 0.5))


def srgb_lin(x):
    return x / 12.92 if x <= 0.04045 else ((x + 0.055) / 1.055) ** 2.4


def lin_srgb(x):
    return x * 12.92 if x <= 0.0031308 else 1.055 * x ** (1 / 2.4) - 0.055


def wrap(m, x):
    if m == "Clamp":
        return min(max(x, 0.0), 1.0)
    if m == "Repeat":
        return x - math.floor(x)
    x = abs(x)
    f = x - math.floor(x)
    return 1 - f if math.floor(x) % 2 else f


def bilinear(px, w, h, u, v):
    x, y = u * (w - 1), v * (h - 1)
    x0, y0 = int(x), int(y)
    x1, y1 = min(x0 + 1, w - 1), min(y0 + 1, h - 1)
    a, b = x - x0, y - y0
    return (px[y0 * w + x0] * (1 - a) + px[y0 * w + x1] * a) * (1 - b) + (px[y1 * w + x0] * (1 - a) + px[y1 * w + x1] * a) * b


def run(ctx):
    W = fx.Wit(ctx, "w_m07.cpp", text())
    W.scoped()
    P = W.P
    cache = {}

    def go(name, unroll=48, **k):
        o = W.run(name, unroll=unroll, **k)
        wh = fx.where_of(P, o.fn, last=True)[0]
        if not o.ok:
            ctx.count("undetermined")
            ctx.notes.append("%s: no result" % name)
            return None, wh, {}
        names = {p["n"]: o.arg(i).t for i, p in enumerate(o.fn.params)}
        return o, wh, names

    def out(o, i):
        return o.load(tm.el(o.r.val, tm.c(i)))

    def pts(rule, what, o, i, names, vs, want, wh, rel=1e-5, atol=1e-6, **k):
        """vs: dicts name -> value; want(v) -> value/None."""
        es = [({names[n]: x for n, x in v.items() if n in names}, v) for v in vs]
        back = {id(e): v for e, v in es}
        fx.points(ctx, rule, what, out(o, i), [e for e, _ in es], lambda e: want(back[id(e)]), wh, rel=rel, atol=atol, site=what,
                  say=lambda e: ", ".join("%s=%.6g" % (n, x) for n, x in back[id(e)].items()), **k)
    r = random.Random(11)
    P6 = {"p%d" % i: round(r.uniform(0.1, 2), 4) for i in range(6)}
    px = [P6["p%d" % i] for i in range(6)]

    # ---------------------------------------------------------------- access
    o, wh, nm = go("ctor")
    if o:
        v = 0.375
        for i, w in enumerate((0, 1, 0, 6, 3, 2, 0, 0, v, v, 0, v, 3, 2, 6, 6, 1, 3, 2, 3, 2)):
            pts("construction", "new image, value %d" % i, o, i, nm, [{"v": v}], lambda e, w=w: float(w), wh)
    o, wh, nm = go("fill")
    if o:
        for i, w in enumerate((0.7, 0.7, 0, 0.2, 12, 6, 0, 0, 0, 1)):
            pts("construction", ("fill", "fill", "reset", "reset to a value", "sensor bit depth", "size", "size after clear", "width after clear", "height after clear", "empty after clear")[i], o, i, nm, [{"v": 0.7, "q": 0.2}], lambda e, w=w: float(w), wh)
    o, wh, nm = go("copy")
    if o:
        for i, w in enumerate((px[4], px[4], 3, 2, 9, 9, px[2], 3, 2, 3, 2)):
            pts("construction", "copied image, value %d" % i, o, i, nm, [P6], lambda e, w=w: float(w), wh)
    o, wh, nm = go("linear")
    if o:
        for i, w in enumerate(px + px + [px[5], px[5], px[3], px[3], px[4], 5, 6]):
            pts("access", "pixel access %d" % i, o, i, nm, [P6], lambda e, w=w: float(w), wh)
    grid = [-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 2 ** 30]
    for c in ("at", "cat"):
        o, wh, nm = go(c + "_xy")
        if o:
            vs = [dict(P6, x=x, y=y) for x in grid for y in grid]
            ins = lambda v: 0 <= v["x"] < 3 and 0 <= v["y"] < 2
            pts("checked access", c + "(x, y) refuses exactly the positions outside", o, 1, nm, vs, lambda v: float(ins(v)), wh)
            pts("checked access", c + "(x, y)", o, 0, nm, vs, lambda v: px[v["y"] * 3 + v["x"]] if ins(v) else 0.0, wh)
        o, wh, nm = go(c + "_px")
        if o:
            fg = [-2.5, -1.0, 0.0, 0.4, 0.99, 1.0, 1.7, 2.0, 2.9, 3.0, 3.2, 50.0]
            vs = [dict(P6, x=x, y=y) for x in fg for y in fg]
            ins = lambda v: 0 <= v["x"] < 3 and 0 <= v["y"] < 2
            pts("checked access", c + "(Pixel) refuses exactly the positions outside", o, 1, nm, vs, lambda v: float(ins(v)), wh)
            pts("checked access", c + "(Pixel)", o, 0, nm, vs, lambda v: px[int(v["y"]) * 3 + int(v["x"])] if ins(v) else 0.0, wh)
        o, wh, nm = go(c + "_i")
        if o:
            vs = [dict(P6, i=i) for i in (0, 1, 2, 3, 4, 5, 6, 7, 2 ** 40)]
            pts("checked access", c + "(index) refuses exactly the positions outside", o, 1, nm, vs, lambda v: float(v["i"] < 6), wh)
            pts("checked access", c + "(index)", o, 0, nm, vs, lambda v: px[v["i"]] if v["i"] < 6 else 0.0, wh)
    o, wh, nm = go("plus")
    if o:
        s = [px[i] + px[5 - i] for i in range(6)]
        s[4] *= 2
        for i, w in enumerate(s + [3, 2, 0, 1]):
            pts("arithmetic", "sum of images, %s" % ("pixel %d" % i if i < 6 else ("width", "height", "of different sizes", "refusal of different sizes")[i - 6]), o, i, nm, [P6], lambda e, w=w: float(w), wh)
    o, wh, nm = go("channel")
    if o:
        for i, w in enumerate([px[0], px[3], px[1], px[4], px[2], px[5], 2, 1, 0, 1, px[2], px[5], 0, 1, px[0], px[1], 0, 1]):
            pts("arithmetic", "get_channel, value %d" % i, o, i, nm, [P6], lambda e, w=w: float(w), wh)

    # ---------------------------------------------------------------- sampling
    uv = [-2.3, -1.6, -1.0, -0.7, -0.001, 0.0, 0.1, 0.25, 0.4999, 0.5, 0.62, 0.9, 0.999, 1.0, 1.3, 1.75, 2.0, 2.4, 3.6]
    for m in ("Clamp", "Repeat", "Mirror"):
        o, wh, nm = go("bil_" + m)
        if not o:
            continue
        vs = [dict(P6, u=u, v=v) for u in uv for v in uv]
        pts("sampling", "bilinear, %s" % m, o, 0, nm, vs, lambda v: bilinear(px, 3, 2, wrap(m, v["u"]), wrap(m, v["v"])), wh)

        def near(v):
            x, y = wrap(m, v["u"]) * 2, wrap(m, v["v"])
            if abs(x % 1 - 0.5) < 1e-6 or abs(y % 1 - 0.5) < 1e-6:
                return None
            return px[int(y + 0.5) * 3 + int(x + 0.5)]
        pts("sampling", "nearest, %s" % m, o, 1, nm, vs, near, wh)
    for n, ax in (("bil_rgb", "u"), ("bil_rgb2", "v"), ("bil_vec", "u"), ("bil_vec2", "v")):
        o, wh, nm = go(n)
        if o:
            vs = [dict(P6, **{ax: u}) for u in uv]
            for i in range(3):
                pts("sampling", "%s channel %d" % (n, i), o, i, nm, vs, lambda v, i=i: (lambda u: px[i] * (1 - u) + px[3 + i] * u)(wrap("Clamp", v[ax])), wh)
                if n == "bil_rgb":
                    pts("sampling", "nearest RGB channel %d" % i, o, 3 + i, nm, [v for v in vs if v["u"] != 0.5], lambda v, i=i: px[i] if wrap("Clamp", v["u"]) < 0.5 else px[3 + i], wh)
    o, wh, nm = go("bil_one")
    if o:
        vs = [dict(p=0.8, u=u, v=u) for u in uv]
        for i, w in enumerate((0.8, 0.8, 0.0, 0.0)):
            pts("sampling", ("one-pixel image, bilinear", "one-pixel image, nearest", "empty image, bilinear", "empty image, nearest")[i], o, i, nm, vs, lambda v, w=w: w, wh)

    # ---------------------------------------------------------------- convolution
    env = dict(P6, q=1.7, a=0.3, b=-0.6, c=0.9)
    num = lambda s: env[s] if s in env else float(s.rstrip("f"))
    for k, (kw, kh) in KERNELS.items():
        o, wh, nm = go("conv_" + k, unroll=200, budget=4000000, models=fft_models({}, {}))
        if not o:
            continue
        im = {(x, y): P6["p%d" % ((x + 4 * y) % 6)] if (x, y) != (2, 1) else env["q"] for x in range(4) for y in range(3)}
        for y in range(3):
            for x in range(4):
                w = sum(im.get((x - (i - kw // 2), y - (j - kh // 2)), 0.0) * num(knl(i, j)) for i in range(kw) for j in range(kh))
                pts("convolution", "%s kernel, pixel (%d, %d)" % (k, x, y), o, 4 * y + x, nm, [env], lambda v, w=w: w, wh, rel=1e-4, atol=1e-4)
        for i, w in ((12, 4), (13, 3), (14, 11)):
            pts("convolution", "%s kernel, %s" % (k, ("width", "height", "sensor bit depth")[i - 12]), o, i, nm, [env], lambda v, w=w: float(w), wh)
    for k, (kw, kh) in (("3x3", (3, 3)), ("6x5", (6, 5)), ("1x1", (1, 1))):
        o, wh, nm = go("convrgb_" + k, unroll=200, budget=4000000, models=fft_models({}, {}))
        if not o:
            continue
        for x in range(2):
            for c in range(3):
                w = sum((px[3 * (x - (i - kw // 2)) + c] if 0 <= x - (i - kw // 2) < 2 and kh // 2 == j else 0.0) * num(knl(i, j)) * (c + 1) for i in range(kw) for j in range(kh))
                pts("convolution", "%s RGB kernel, pixel %d channel %d" % (k, x, c), o, 3 * x + c, nm, [env], lambda v, w=w: w, wh, rel=1e-4, atol=1e-4)

    # ---------------------------------------------------------------- colour
    xs = [-0.2, 0.0, 0.001, 0.003, 0.0031, 0.0032, 0.02, 0.04, 0.0404, 0.0405, 0.06, 0.2, 0.5, 0.735, 0.9, 1.0, 1.5]
    o, wh, nm = go("srgb")
    if o:
        pts("colour", "srgb_to_linear", o, 0, nm, [{"x": x} for x in xs], lambda v: srgb_lin(v["x"]), wh)
        pts("colour", "linear_to_srgb", o, 1, nm, [{"x": x} for x in xs], lambda v: lin_srgb(v["x"]), wh)
    o, wh, nm = go("gamma")
    if o:
        pts("colour", "gamma_to_linear", o, 0, nm, [{"x": x, "g": g} for x in (0.1, 0.5, 1.0) for g in (1.0, 2.2, 1.8)], lambda v: v["x"] ** v["g"], wh)
    o, wh, nm = go("bundle")
    if o:
        for i, w in enumerate([srgb_lin(x) for x in px] + [lin_srgb(x) for x in px] + [px[0], px[0], 1, 1, 2, 1]):
            pts("colour", "colour space of an RGB image, value %d" % i, o, i, nm, [P6], lambda e, w=w: float(w), wh)
    o, wh, nm = go("bundle1")
    if o:
        for i, w in enumerate([srgb_lin(px[5]), srgb_lin(px[1]), lin_srgb(px[5]), lin_srgb(px[1]), px[1], px[5], 1, 1, 3, 2]):
            pts("colour", "colour space of a grey image, value %d" % i, o, i, nm, [P6], lambda e, w=w: float(w), wh)
    o, wh, nm = go("normals")
    if o:
        for i, w in enumerate([x * 0.5 + 0.5 for x in px] + [2, 1]):
            pts("colour", "normal map, value %d" % i, o, i, nm, [P6], lambda e, w=w: float(w), wh)
    o, wh, nm = go("depths")
    if o:
        for i in range(15):
            def dm(v, i=i):
                if i >= 13:
                    return (3.0, 2.0)[i - 13]
                k = 4 if i == 12 else i % 6
                d = [v["p%d" % j] for j in range(6)]
                if d[k] == INF:
                    return 1.0
                f = [x for x in d if x != INF]
                lo, hi = min(f), max(f)
                return 0.0 if hi == lo else 0.8 * (d[k] - lo) / (hi - lo)
            vs = [P6, dict(P6, p1=INF, p5=INF), dict(P6, p0=INF, p4=INF), {"p%d" % j: 6.0 - j for j in range(6)}, {"p%d" % j: 5.0 if j % 2 else INF for j in range(6)}, {"p%d" % j: 1.0 + j for j in range(6)}]
            pts("colour", "depth map, value %d" % i, o, i, nm, vs, dm, wh)
    o, wh, nm = go("spectral")
    if o:
        for i, w in enumerate(px + [px[1], px[4], 2, 1]):
            pts("colour", "rgb_to_spectral, value %d" % i, o, i, nm, [P6], lambda e, w=w: float(w), wh)

    # ---------------------------------------------------------------- pixel types
    gray = lambda a, b, c: 0.2126 * a + 0.7152 * b + 0.0722 * c
    for i, (n, (lo, hi)) in enumerate(INTS.items()):
        o, wh, nm = go("f2i_%d" % i)
        if o:
            vs = [{"x": x, "a": a, "b": b} for x in (-0.3, 0.0, 0.001, 0.125, 0.31, 0.5, 0.71, 0.992, 1.0, 1.4) for a, b in ((-0.5, 1.25), (0.0, 0.5), (-2.0, -1.0))]

            def q(x, a=0.0, b=1.0):
                z = min(max((x - a) / (b - a), 0.0), 1.0)
                f = lo + z * (hi - lo) + 0.5
                return None if abs(f - round(f)) < 1e-4 * max(1, (hi - lo) * 1e-4) and 0 < z < 1 else float(math.floor(f)) if z < 1 else float(hi)
            # (32-bit targets: the value is a single-precision number)
            rel = 1e-6 if hi > 1e9 else 0
            pts("pixel types", "float_to_integer<%s>" % n, o, 0, nm, vs, lambda v: q(v["x"]), wh, rel=rel, atol=1e-9 if not rel else 1)
            pts("pixel types", "float_to_integer<%s> of a range" % n, o, 1, nm, vs, lambda v: q(v["x"], v["a"], v["b"]), wh, rel=rel, atol=1e-9 if not rel else 1)
            if not lo:
                pts("pixel types", "convert_float_to_pixel<%s>" % n, o, 2, nm, vs, lambda v: q(v["x"]), wh, rel=rel, atol=1e-9 if not rel else 1)
                pts("pixel types", "convert_vec3_to_pixel<%s>" % n, o, 3, nm, vs, lambda v: q(gray(v["x"], v["a"], v["b"])), wh, rel=rel, atol=1e-9 if not rel else 1)
        o, wh, nm = go("i2f_%d" % i)
        if o:
            vs = [{"x": x, "a": a, "b": b} for x in (lo, lo + 1, (lo + hi) // 3, hi // 2, hi - 1, hi) for a, b in ((-0.5, 1.25), (0.0, 0.5))]
            for j in range(6 if not lo else 2):
                pts("pixel types", "integer_to_float<%s>, %s" % (n, ("", "of a range", "convert_pixel_to_float", "convert_pixel_to_vec3", "convert_pixel_to_vec3", "convert_pixel_to_vec3")[j]), o, j, nm, vs,
                    lambda v: (lambda z: z if j != 1 else v["a"] + z * (v["b"] - v["a"]))((v["x"] - lo) / (hi - lo)), wh)
    vs = [{"x": 0.3, "y": 0.8, "z": 0.45, "d": 0.65}]
    o, wh, nm = go("pix")
    if o:
        x, y, z = 0.3, 0.8, 0.45
        for i, w in enumerate([x] * 5 + [x, y, z] * 2 + [gray(x, y, z), x, gray(x, y, z), gray(x, y, z), x, y, z, x, x, x, x, y, z]):
            pts("pixel types", "floating-point pixel conversion %d" % i, o, i, nm, vs, lambda e, w=w: w, wh)
    o, wh, nm = go("pix2")
    if o:
        for i, w in enumerate([0.3] * 3 + [gray(0.3, 0.8, 0.45)] + [0.65] * 4):
            pts("pixel types", "double pixel conversion %d" % i, o, i, nm, vs, lambda e, w=w: w, wh)

    # ---------------------------------------------------------------- sizes
    o, wh, nm = go("res")
    if o:
        p, q, s, t = 40, 30, 2.5, 0.5
        for i, w in enumerate([p, q, p, q, p, q, p * s, q * t, p * s, q * s, p / s, q / t, p / s, q / s, s * p, t * q, s * p, s * q, s / p, t / q, s / p, s / q, 7, 9]):
            pts("sizes", "Resolution operation %d" % i, o, i, nm, [{"p": p, "q": q, "s": s, "t": t}], lambda e, w=w: float(w), wh)
    o, wh, nm = go("res_eq")
    if o:
        vs = [dict(p=a, q=b, s=c, t=d) for a in (3, 4) for b in (3, 4) for c in (3, 4) for d in (3, 4)]
        pts("sizes", "Resolution equality", o, 0, nm, vs, lambda v: float(v["p"] == v["s"] and v["q"] == v["t"]), wh)
    o, wh, nm = go("pixel")
    if o:
        x, y, s, t = 1.5, -2.0, 3.0, 0.25
        for i, w in enumerate([x + s, y + t, x - s, y - t, x * s, y * s, x * s, y * s, s, t, 0, 0]):
            pts("sizes", "Pixel operation %d" % i, o, i, nm, [{"x": x, "y": y, "s": s, "t": t}], lambda e, w=w: float(w), wh)
    ctx.require(ctx.cov.get("pointwise", 0) > 300, "image operations")
    ctx.explanation = "%d value graphs of image access, sampling, convolution and pixel conversion compared pointwise with their definitions, on both sides of every guard" % ctx.cov.get("pointwise", 0)
