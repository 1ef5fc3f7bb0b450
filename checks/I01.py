"""I01: image files the library decodes itself give the pixels their format defines, and damaged ones are refused.

Witnesses hand the BMP, TGA and Radiance HDR readers a file whose layout (headers, packet counts, palette) is given and whose pixel bytes are
unknowns. The value graph of every channel of every pixel is compared with the bytes the format definition names, and every
element the reader reads or writes on the way has to lie inside the file or inside the buffer it allocated.
"""
import random
import re
import struct
from checks import M11 as m11
from sa import absint
from sa import concrete as cc
from sa import fx
from sa import models as md
from sa import terms as tm
from sa.terms import mk, c

DATA = mk("glob", "verif_data")
U8 = ("u", 8)
N = 80


def text():
    t = ['#include "huira/huira.hpp"', '#include "huira/images/io/bmp_io.hpp"', '#include "huira/images/io/tga_io.hpp"', '#include "huira/images/io/hdr_io.hpp"', "using namespace huira;", "namespace verif_w {", "using A = std::array<double, %d>;" % N]
    body = ("A o{}; auto b = read_image_%s(d, n, al); const int w = b.image.width(), h = b.image.height(); o[0] = w; o[1] = h; o[2] = b.alpha.empty() ? 0 : 1; o[3] = b.alpha.width(); o[4] = b.alpha.height();"
            " std::size_t k = 5; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { if (skip > 0) { --skip; continue; } const auto& p = b.image(x, y); %s o[k] = b.alpha.empty() ? 0.f : b.alpha(x, y); ++k; } return o; }")
    for f in ("bmp", "tga"):
        t.append("A %s(const unsigned char* d, std::size_t n, bool al, int skip) { " % f + body % (f, "o[k++] = p[0]; o[k++] = p[1]; o[k++] = p[2];"))
        t.append("A %s_mono(const unsigned char* d, std::size_t n, bool al, int skip) { " % f + body % (f + "_mono", "o[k++] = p;"))
    body = body.replace("(d, n, al)", "(d, n)")
    t.append("A hdr(const unsigned char* d, std::size_t n, bool al, int skip) { " + body % ("hdr", "o[k++] = p[0]; o[k++] = p[1]; o[k++] = p[2];"))
    t.append("A hdr_mono(const unsigned char* d, std::size_t n, bool al, int skip) { " + body % ("hdr_mono", "o[k++] = p;"))
    for k in FORMATS:
        t.append("int value_%s() { return static_cast<int>(ImageFormat::IMAGE_FORMAT_%s); }" % (k, k))
    for mono in ("", "_mono"):
        t.append("int pick%s(ImageFormat f, const unsigned char* d, std::size_t n, bool al) { auto b = read_image%s(f, d, n, al); return b.image.width(); }" % (mono, mono))
        t.append("int open%s(const fs::path& p, bool al) { auto b = read_image%s(p, al); return b.image.width(); }" % (mono, mono))
        for f in ("bmp", "tga", "png", "tiff"):
            g = f + ("_rgb" if f == "tiff" and not mono else "") + mono
            t.append("int open_%s%s(const fs::path& p, bool al) { auto b = read_image_%s(p, al); return b.image.width(); }" % (f, mono, g))
        for f in ("hdr", "jpeg"):
            t.append("int open_%s%s(const fs::path& p, bool al) { auto b = read_image_%s(p); return b.image.width(); }" % (f, mono, f + mono))
    t.append("}")
    return "\n".join(t) + "\n"


class File:
    """The bytes of a file: numbers where the layout is given, unknowns (None) in the pixels."""

    def __init__(self, what, data, want):
        self.what, self.data, self.want = what, list(data), want


# ---- the two formats ----------------------------------------------------------------------------
def bmp(what, w, h, bpp=24, comp=0, off=None, dib=40, cut=0, extra=0, sig=b"BM", size=None, refuse=None, gap=0):
    ch = bpp // 8
    stride = (abs(w) * ch + 3) // 4 * 4
    if off is None:
        off = 14 + dib + gap
    head = sig + struct.pack("<IHHI", 0, 0, 0, off & 0xFFFFFFFF) + struct.pack("<IiiHHIIiiII", dib & 0xFFFFFFFF, w, h, 1, bpp, comp, 0, 2835, 2835, 0, 0)
    head = list(head)
    while size is None and len(head) < min(off, 2000):
        head.append(0)
    n = len(head)
    if size is not None:
        data = (head + [None] * size)[:size]
    else:
        data = head + [None] * (stride * abs(h) + extra)
        data = data[:len(data) - cut]
    want = None
    if refuse is None:
        px = []
        for y in range(abs(h)):
            r = abs(h) - 1 - y if h > 0 else y
            for x in range(w):
                p = n + r * stride + x * ch
                px.append((p + 2, p + 1, p) + ((p + 3,) if ch == 4 else ()))
        want = (w, abs(h), ch == 4, px)
    return File("BMP, " + what, data, want if refuse is None else refuse)


def tga(what, w, h, kind=2, depth=24, desc=0, ident=0, cm=(0, 0, 0, 0), packets=None, indices=None, cut=0, refuse=None, size=None):
    cmt, first, length, entry = cm
    data = list(struct.pack("<BBBHHBHHHHBB", ident, cmt, kind, first, length, entry, 0, 0, w, h, depth, desc))
    data += [0] * ident
    base = len(data)
    eb = (entry + 7) // 8
    data += [None] * (length * eb if cmt else 0)
    ib = (depth + 7) // 8
    src = []  # where the bytes of pixel i begin, or its index
    n = w * h

    def one(i):
        if kind in (1, 9):
            data.extend((indices[i] >> (8 * j)) & 255 for j in range(ib))
            return indices[i]
        data.extend([None] * ib)
        return len(data) - ib
    if kind >= 9:
        for run, count in packets:
            data.append((128 if run else 0) | (count - 1))
            if run:
                p = one(len(src))
                src += [p] * count
            else:
                src += [one(len(src) + j) for j in range(count)]
    else:
        src = [one(i) for i in range(n)]
    if cut:
        data = data[:len(data) - cut]
    if size is not None:
        data = (data + [None] * size)[:size]
    if refuse is not None:
        return File("TGA, " + what, data, refuse)
    px = []
    for y in range(h):
        for x in range(w):
            i = (y if desc & 0x20 else h - 1 - y) * w + (w - 1 - x if desc & 0x10 else x)
            if kind in (1, 9):
                p = base + (src[i] - first) * eb
                px.append((p + 2, p + 1, p) + ((p + 3,) if eb == 4 else ()))
            elif kind in (3, 11):
                px.append((src[i],) * 3)
            else:
                px.append((src[i] + 2, src[i] + 1, src[i]) + ((src[i] + 3,) if ib == 4 else ()))
    return File("TGA, " + what, data, (w, h, len(px[0]) == 4, px))


def hdr(what, w, h, axes=("-Y", "+X"), head=b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n", res=None, rows=None, end=b"\n", cut=0, refuse=None, dark=(), zero=(), first=()):
    """rows: None (flat) or for each row four lists of packets (run, count)."""
    data = list(head) + list(res if res is not None else ("%s %d %s %d" % (axes[0], h, axes[1], w)).encode()) + list(end)
    src = {}
    fw, fh = (w, h) if refuse is None else (max(0, min(w, 8)), max(0, min(h, 4)))
    for y in range(fh):
        if rows is None or rows[y] is None:
            for x in range(fw):
                src[x, y] = tuple(range(len(data), len(data) + 4))
                data += [None] * 4
            if y == 0:
                for i, v in enumerate(first):
                    data[src[0, y][i]] = v
            if fw and y * fw in dark:
                data[src[0, y][3]] = 0
            if fw and y * fw in zero:
                data[src[0, y][0]] = 0
            continue
        data += [2, 2, w >> 8, w & 255]
        for ch in range(4):
            x = 0
            for run, count in rows[y][ch]:
                data.append(128 + count if run else count)
                for i in range(1 if run else count):
                    data.append(None)
                for i in range(count):
                    src[x, y] = src.get((x, y), ()) + (len(data) - 1 if run else len(data) - count + i,)
                    x += 1
    if cut:
        data = data[:len(data) - cut]
    if refuse is not None:
        return File("HDR, " + what, data, refuse)
    px = []
    for y in range(h):
        for x in range(w):
            px.append(src[(x if axes[1] == "+X" else w - 1 - x, y if axes[0] == "-Y" else h - 1 - y)] + ("rgbe",))
    f = File("HDR, " + what, data, (w, h, False, px))
    f.exps = {p[3] for p in px}
    return f


NO = "refused"      # has to be refused
ANY = "contained"   # may be refused or not, but nothing outside the file is touched


def files():
    b = [bmp("24 bits, bottom-up", 3, 2), bmp("24 bits, top-down", 3, -2), bmp("32 bits, bottom-up", 2, 3, 32), bmp("32 bits, top-down", 2, -2, 32), bmp("32 bits with bit fields", 2, 2, 32, 3, dib=108),
         bmp("rows of 4 pixels", 4, 1), bmp("rows of 1 pixel", 1, 3), bmp("rows of 2 pixels", 2, 2), bmp("a gap before the pixels", 2, 2, gap=10), bmp("bytes after the pixels", 2, 2, extra=7), bmp("300 columns", 300, 1), bmp("300 rows", 1, 300, 32), bmp("pixels at 300", 2, 2, gap=246), bmp("a V5 header", 1, 2, dib=124),
         bmp("1 byte missing", 3, 2, cut=1, refuse=NO), bmp("a row missing", 3, 2, cut=12, refuse=NO), bmp("no pixels", 3, 2, cut=24, refuse=NO), bmp("53 bytes", 1, 1, size=53, refuse=NO), bmp("no bytes", 1, 1, size=0, refuse=NO), bmp("2 bytes", 1, 1, size=2, refuse=NO),
         bmp("another signature", 2, 2, sig=b"BA", refuse=NO), bmp("another first byte", 2, 2, sig=b"PM", refuse=NO), bmp("16 bits", 2, 2, 16, refuse=NO), bmp("8 bits", 4, 2, 8, refuse=NO), bmp("run-length compression", 2, 2, 24, 1, refuse=NO), bmp("a 12-byte header", 2, 2, dib=12, off=54, refuse=NO),
         bmp("a header longer than the file", 2, 2, dib=200, off=54, refuse=NO), bmp("a header of almost 2^32 bytes", 2, 2, dib=0xFFFFFFF4, off=54, refuse=NO), bmp("pixels that begin behind the end", 2, 2, off=400, size=70, refuse=NO), bmp("pixels that begin at almost 2^32", 2, 2, off=0xFFFFFFFF, refuse=NO),
         bmp("width 2^30 in 32 bits", 1 << 30, 2, 32, size=94, refuse=NO), bmp("width 0x55555556", 0x55555556, 1, 24, size=90, refuse=NO), bmp("width 2^31 - 1", 2 ** 31 - 1, 2, 24, size=90, refuse=NO), bmp("width -3", -3, 2, size=90, refuse=NO), bmp("width and height of 2^16", 1 << 16, 1 << 16, 32, size=90, refuse=NO),
         bmp("height -2^31", 1, -(2 ** 31), size=90, refuse=NO), bmp("height 2^31 - 1", 1, 2 ** 31 - 1, size=90, refuse=NO), bmp("width 0", 0, 2, size=60, refuse=ANY), bmp("height 0", 2, 0, size=60, refuse=ANY)]
    pal = (1, 0, 3, 24)
    g = [tga("true colour, 24 bits, from the bottom", 3, 2), tga("true colour, from the top", 3, 2, desc=0x20), tga("true colour, 32 bits", 2, 2, depth=32, desc=8), tga("true colour, 32 bits, from the top", 2, 2, depth=32, desc=0x28), tga("right to left", 3, 2, desc=0x10), tga("right to left from the top", 2, 2, desc=0x30),
         tga("an image ID", 2, 2, ident=5), tga("an unused palette before the pixels", 2, 2, cm=(1, 0, 2, 24)), tga("grey", 3, 2, 3, 8), tga("grey from the top", 3, 2, 3, 8, desc=0x20),
         tga("palette", 2, 2, 1, 8, cm=pal, indices=[2, 0, 1, 2]), tga("palette of 32 bits", 2, 2, 1, 8, cm=(1, 0, 2, 32), indices=[1, 0, 0, 1]), tga("palette with 16-bit indices", 2, 1, 1, 16, cm=(1, 0, 2, 24), indices=[1, 0]), tga("palette that begins at 5", 2, 2, 1, 8, cm=(1, 5, 3, 24), indices=[5, 7, 6, 5]), tga("palette and image ID", 2, 1, 1, 8, cm=pal, ident=3, indices=[2, 1]),
         tga("runs", 3, 2, 10, packets=[(1, 4), (0, 2)]), tga("raw packets", 2, 2, 10, packets=[(0, 1), (0, 3)]), tga("runs in 32 bits", 2, 2, 10, 32, packets=[(0, 2), (1, 2)], desc=0x20), tga("runs over two rows", 2, 3, 10, packets=[(0, 1), (1, 4), (1, 1)]), tga("runs of grey", 3, 2, 11, 8, packets=[(1, 2), (0, 3), (1, 1)]),
         tga("runs with a palette", 2, 2, 9, 8, cm=pal, packets=[(1, 2), (0, 2)], indices=[2, 2, 0, 1]), tga("a packet of 128 pixels", 43, 3, 11, 8, packets=[(1, 128), (0, 1)]), tga("a raw packet of 128 pixels", 65, 2, 10, packets=[(0, 128), (1, 2)]), tga("300 columns", 300, 1), tga("300 rows", 1, 300, 3, 8), tga("a palette of 200 colours", 3, 1, 1, 8, cm=(1, 0, 200, 24), indices=[199, 128, 127]), tga("300 colours from 40 on", 3, 1, 1, 16, cm=(1, 40, 300, 32), indices=[339, 40, 296]), tga("an image ID of 200 bytes", 2, 1, ident=200), 
         tga("1 byte missing", 3, 2, cut=1, refuse=NO), tga("no pixels", 3, 2, cut=18, refuse=NO), tga("17 bytes", 1, 1, size=17, refuse=NO), tga("no bytes", 1, 1, size=0, refuse=NO), tga("a palette cut off", 2, 1, 1, 8, cm=pal, indices=[0, 0], cut=4, refuse=NO), tga("an image ID cut off", 1, 1, ident=9, size=20, refuse=NO), tga("runs cut off", 3, 2, 10, packets=[(1, 4), (0, 2)], cut=1, refuse=NO),
         tga("a run without its pixel", 3, 2, 10, packets=[(0, 2), (1, 4)], cut=1, refuse=NO), tga("packets that stop early", 3, 2, 10, packets=[(1, 4)], refuse=NO), tga("grey runs cut off", 3, 2, 11, 8, packets=[(1, 4), (0, 2)], cut=2, refuse=NO),
         tga("a raw packet longer than the image", 2, 1, 10, packets=[(0, 5)], refuse=ANY), tga("a run longer than the image", 2, 1, 10, packets=[(1, 5)], refuse=ANY), tga("a grey raw packet longer than the image", 2, 2, 11, 8, packets=[(1, 3), (0, 9)], refuse=ANY),
         tga("an index behind the palette", 2, 1, 1, 8, cm=pal, indices=[0, 3], refuse=NO), tga("an index before the palette", 2, 1, 1, 8, cm=(1, 5, 3, 24), indices=[5, 4], refuse=NO), tga("a 16-bit index behind the palette", 2, 1, 1, 16, cm=pal, indices=[0, 300], refuse=NO), tga("indices without a palette", 2, 1, 1, 8, cm=(0, 0, 0, 0), indices=[0, 1], refuse=NO), tga("indices with an empty palette", 2, 1, 1, 8, cm=(1, 0, 0, 24), indices=[0, 1], refuse=NO), tga("a palette of 16 bits", 2, 1, 1, 8, cm=(1, 0, 3, 16), indices=[0, 1], refuse=NO),
         tga("24-bit indices", 2, 1, 1, 24, cm=pal, indices=[0, 1], refuse=NO), tga("true colour of 16 bits", 2, 2, 2, 16, refuse=NO), tga("true colour of 8 bits", 2, 2, 2, 8, refuse=NO), tga("runs in true colour of 16 bits", 2, 2, 10, 16, packets=[(1, 4)], refuse=NO), tga("grey of 16 bits", 2, 2, 3, 16, refuse=NO), tga("type 0", 1, 1, 0, refuse=NO), tga("type 4", 1, 1, 4, refuse=NO), tga("type 32", 2, 2, 32, packets=[(1, 4)], refuse=NO), tga("no rows", 3, 0, refuse=ANY), tga("no columns", 0, 3, refuse=ANY)]
    lit = lambda n: [(0, n)]
    run = lambda n: [(1, n)]
    mix = lambda n: [(1, n - 3), (0, 2), (1, 1)]
    r4 = [[lit(8), run(8), mix(8), lit(8)], [mix(8), lit(8), lit(8), run(8)]]
    wide = [[[(0, 128), (1, 127), (0, 45)], [(1, 127), (0, 128), (1, 45)], [(1, 100), (1, 100), (1, 100)], [(0, 1), (0, 127), (0, 127), (1, 45)]]]
    r5 = [[[(0, 3), (1, 5)], [(1, 2), (1, 6)], [(0, 1), (0, 7)], lit(8)]]
    d = [hdr("flat", 3, 2), hdr("flat, one pixel", 1, 1), hdr("flat with a black pixel", 2, 2, dark=(0, 2)), hdr("flat with a pixel without red", 2, 2, zero=(0, 2)), hdr("from the bottom", 2, 3, ("+Y", "+X")), hdr("right to left", 3, 2, ("-Y", "-X")), hdr("from the bottom, right to left", 3, 2, ("+Y", "-X")),
         hdr("run lengths", 8, 2, rows=r4), hdr("run lengths from the bottom", 8, 2, ("+Y", "+X"), rows=r4), hdr("several packets", 8, 1, rows=r5), hdr("a flat row after run lengths", 8, 2, rows=[r4[0], None]), hdr("300 pixels a row", 300, 1, rows=wide), hdr("300 flat pixels a row", 300, 1), hdr("a first pixel 2 7 0 3", 3, 2, first=(2, 7, 0, 3)), hdr("a first pixel 7 2 0 3", 3, 2, first=(7, 2, 0, 3)), hdr("a first pixel 2 2 0 4", 3, 2, first=(2, 2, 0, 4)), hdr("a first pixel 2 2 1 3", 3, 2, first=(2, 2, 1, 3)), hdr("carriage returns", 2, 2, head=b"#?RGBE\r\nFORMAT=32-bit_rle_rgbe\r\n\r\n", end=b"\r\n"), hdr("comments in the header", 2, 1, head=b"#?RADIANCE\n# made by hand\nEXPOSURE=1.0\nFORMAT=32-bit_rle_rgbe\n\n"), hdr("no format line", 2, 1, head=b"#?RADIANCE\n\n"),
         hdr("1 byte missing", 3, 2, cut=1, refuse=NO), hdr("a row missing", 3, 2, cut=12, refuse=NO), hdr("no pixels", 3, 2, cut=24, refuse=NO), hdr("run lengths cut off", 8, 2, rows=r4, cut=1, refuse=NO), hdr("a run without its value", 8, 1, rows=[[lit(8), lit(8), lit(8), run(8)]], cut=1, refuse=NO), hdr("a run too long", 8, 1, rows=[[lit(8), run(100), lit(8), lit(8)]], refuse=ANY), hdr("literals too long", 8, 1, rows=[[lit(30), run(8), lit(8), lit(8)]], refuse=ANY), hdr("the last literals too long", 8, 1, rows=[[lit(8), lit(8), lit(8), lit(12)]], refuse=ANY),
         hdr("another magic", 2, 2, head=b"#!RADIANCE\n\n", refuse=NO), hdr("no resolution", 0, 0, res=b"", end=b"", refuse=NO), hdr("only a magic", 0, 0, head=b"#?RADIANCE", res=b"", end=b"", refuse=NO), hdr("no bytes", 0, 0, head=b"", res=b"", end=b"", refuse=NO), hdr("width 0", 0, 2, refuse=NO), hdr("height 0", 2, 0, refuse=NO), hdr("width -2", -2, 2, refuse=NO), hdr("height -1", 2, -1, refuse=NO), hdr("width and height of 2^31 - 1", 2 ** 31 - 1, 2 ** 31 - 1, refuse=NO), hdr("half a resolution", 2, 2, res=b"-Y 2", refuse=NO), hdr("another order of the axes", 2, 2, res=b"*Y 2 +X 2", refuse=NO), hdr("a resolution that is no number", 2, 2, res=b"-Y two +X 2", refuse=NO), hdr("a scan line shorter than its count", 200, 1, refuse=NO)]
    return [("bmp", x) for x in b] + [("tga", x) for x in g] + [("hdr", x) for x in d]


# ---- memory -------------------------------------------------------------------------------------
def byte_type(P, x):
    while x is not None and (x.k.endswith("CastExpr") or x.k == "ParenExpr") and x.c and P.ty(P.ty(x.t).get("p", -1) if P.ty(x.t).get("p", -1) >= 0 else x.t)["k"] not in ("int", "float"):
        x = x.c[0]
    t = P.ty(x.t)
    return t["p"] if t["k"] == "ptr" else -1


def const(I, st, v):
    v = I.subst(st, v)
    while v.op == "cast":
        v = v.a[1]
    return v.a[0] if v.op == "c" else None


def m_memcpy(I, n, f, this, args, argn, on, st, fr):
    k = const(I, st, args[2])
    ts = [byte_type(I.P, x) for x in argn[:2]]
    if k is None or k > 4096 or any(t < 0 for t in ts):
        return md.m_memcpy(I, n, f, this, args, argn, on, st, fr)
    dw = I.P.ty(ts[0]).get("w", 8) // 8
    sw = I.P.ty(ts[1]).get("w", 8) // 8
    if sw != 1 or I.P.ty(ts[0])["k"] != "int":
        return md.m_memcpy(I, n, f, this, args, argn, on, st, fr)
    bs = [tm.settype(I.load(st, tm.padd(args[1], c(i)) if i else args[1]), U8) for i in range(k)]
    if dw == 1:
        for i, v in enumerate(bs):
            I.store(st, tm.padd(args[0], c(i)) if i else args[0], v, n, fr)
        return args[0]
    if k != dw:
        return md.m_memcpy(I, n, f, this, args, argn, on, st, fr)
    tc = I.tc(ts[0])
    vs = [b.a[0] if b.op == "c" else None for b in bs]
    if None in vs:
        v = tm.settype(tm.call("verif_bytes%d" % k, *bs), tc)
    else:
        x = int.from_bytes(bytes(int(q) for q in vs), "little")
        if tc[0] == "i" and x >> (8 * k - 1):
            x -= 1 << (8 * k)
        v = tm.settype(c(x), tc)
    I.store(st, args[0], v, n, fr)
    return args[0]


def m_assign(I, n, f, this, args, argn, on, st, fr):
    if len(args) == 2 and all(I.P.ty(I.P.deref_type(x.t))["k"] == "ptr" for x in argn):
        x, y = (md.ptr_value(I, st, a, q) for a, q in zip(args, argn))
        sp = (md.ZERO, md.ZERO) if x is y else tm._elsplit(y, x)
        k = const(I, st, tm.sub(md.U64, sp[0], sp[1])) if sp else None
        if k is not None and 0 <= k <= 4096:
            vs = [I.load(st, tm.padd(x, c(i)) if i else x) for i in range(k)]
            md.clobber_elems(I, st, this, n, fr)
            md.set_size(I, st, this, c(k))
            for i, v in enumerate(vs):
                st.store[tm.el(this, c(i))] = v
            return None
    return md.v_resize(I, n, f, this, args, argn, on, st, fr)


def m_resize(I, n, f, this, args, argn, on, st, fr):
    old = const(I, st, md.size_of(I, st, this))
    k = const(I, st, args[0]) if args and not (I.P.ty(f.params[0]["t"])["k"] == "ref") else None
    keep = {x: v for x, v in st.store.items() if I.under(x, this)} if old is not None and k is not None else {}
    r = md.v_resize(I, n, f, this, args, argn, on, st, fr)
    if old is not None and k is not None and 0 <= k <= 4096 and len(args) == 1:
        for i in range(k):
            a = tm.el(this, c(i))
            if i < old:
                st.store[a] = keep.get(a, md.ZERO) if a in keep else I.load(st, a)
            else:
                st.store[a] = md.ZERO
    return r


def m_insert(I, n, f, this, args, argn, on, st, fr):
    if f.n == "insert" and len(args) == 3:
        at, x, y = (md.ptr_value(I, st, a, q) for a, q in zip(args, argn))
        sp = (md.ZERO, md.ZERO) if x is y else tm._elsplit(y, x)
        k = const(I, st, tm.sub(md.U64, sp[0], sp[1])) if sp else None
        size = const(I, st, md.size_of(I, st, this))
        if at is this:
            at = tm.el(this, c(0))
        i = const(I, st, at.a[1]) if at.op == "el" and at.a[0] is this else None
        et = I.elem_t(on.t)
        if k is not None and 0 <= k <= 4096 and size is not None and i is not None and 0 <= i <= size and et >= 0 and I.is_val(et):
            tc = I.tc(et)
            vs = [I.load(st, tm.padd(x, c(j)) if j else x, tc) for j in range(k)]
            tail = [I.load(st, tm.el(this, c(j)), tc) for j in range(i, size)]
            for j, v in enumerate(vs + tail):
                st.store[tm.el(this, c(i + j))] = v
            md.set_size(I, st, this, c(size + k))
            return I.unknown(n, st, fr) if I.is_val(f.ret) else I.rec_result(n, st, fr, tm.el(this, c(i)))
    return absint.models.MODELS["std::vector::insert"][0](I, n, f, this, args, argn, on, st, fr)


MODELS = {"std::vector::insert": (m_insert, True), "huira::Logger::get_level": (lambda *a: c(99), True), "memcpy": (m_memcpy, True), "memmove": (m_memcpy, True), "std::memcpy": (m_memcpy, True), "std::memmove": (m_memcpy, True), "std::vector::assign": (m_assign, True), "std::vector::resize": (m_resize, True)}


# ---- text (constant) ----------------------------------------------------------------------------
def s_append(I, n, f, this, args, argn, on, st, fr):
    s = m11.pyv(m11.sval(I, st, this))
    x = args[0] if len(args) == 1 else None
    if x is not None and x.op != "str":
        x = m11.sval(I, st, x) if m11.is_str(I, argn[0]) else I.subst(st, md.arg_val(I, st, x, f, 0) if I.P.ty(f.params[0]["t"])["k"] == "ref" else x)
        while x.op == "cast":
            x = x.a[1]
    v = m11.pyv(x) if x is not None else None
    if not isinstance(s, str) or v is None:
        m11.put(I, st, this, I.fresh(n, fr, "str"))
    else:
        m11.put(I, st, this, mk("str", s + (v if isinstance(v, str) else chr(int(v) & 255))))
    return this


def s_equal(key):
    base = absint.models.MODELS.get(key)

    def h(I, n, f, this, args, argn, on, st, fr):
        xs = ([this] if this is not None else []) + list(args)
        if len(xs) == 2 and (m11.is_str(I, argn[0]) or len(argn) > 1 and m11.is_str(I, argn[1])):
            a, b = (m11.pyv(m11.sval(I, st, x)) for x in xs)
            if isinstance(a, str) and isinstance(b, str):
                return tm.TRUE if (a == b) == ("==" in f.n) else tm.FALSE
        return base[0](I, n, f, this, args, argn, on, st, fr) if base else NotImplemented
    return h


def folded(I, n, f, this, args, argn, on, st, fr):
    """rfind and compare of known texts."""
    s = m11.pyv(m11.sval(I, st, this))
    vs = []
    for x, nd, q in zip(args, argn, f.params):
        v = m11.pyv(m11.sval(I, st, x)) if x.op == "str" or m11.is_str(I, nd) else const(I, st, x) if I.is_val(nd.t) else None
        if v is None:
            return NotImplemented
        vs.append(v)
    if not isinstance(s, str):
        return NotImplemented
    if f.n == "rfind" and isinstance(vs[0], str) and len(vs) <= 2:
        k = s.rfind(vs[0]) if len(vs) == 1 or vs[1] >= len(s) else s.rfind(vs[0], 0, int(vs[1]) + len(vs[0]))
        return tm.settype(c(k if k >= 0 else m11.NPOS), md.U64)
    if f.n == "compare" and isinstance(vs[-1], str) and len(vs) in (1, 3):
        a = s if len(vs) == 1 else s[int(vs[0]):int(vs[0] + vs[1])]
        return tm.settype(c((a > vs[-1]) - (a < vs[-1])), md.I64)
    return NotImplemented


def starts(I, n, f, this, args, argn, on, st, fr):
    a, b = (m11.pyv(m11.sval(I, st, x)) for x in (this, args[0]))
    return (tm.TRUE if (a.startswith(b) if f.n == "starts_with" else a.endswith(b)) else tm.FALSE) if isinstance(a, str) and isinstance(b, str) else NotImplemented


def iss_ctor(I, n, a, f, args, st, fr):
    I.kill_sub(st, a)
    st.store[a] = I.fresh(n, fr, "stream")
    if args:
        st.store[tm.el(a, "$txt")] = m11.sval(I, st, args[0])
    st.store[tm.el(a, "$bad")] = md.ZERO


def extract(I, n, f, this, args, argn, on, st, fr):
    s, out = (this, args[0]) if this is not None else (args[0], args[1])
    nd = argn[-1]
    t = st.store.get(tm.el(s, "$txt"))
    bad = st.store.get(tm.el(s, "$bad"))
    ty = I.P.ty(I.P.deref_type(nd.t))
    if t is None or not isinstance(m11.pyv(t), str) or bad is None or bad.op != "c" or not (ty["k"] == "int" and ty.get("w", 32) > 8 or ty.get("key") in m11.STR):
        return NotImplemented
    x = m11.pyv(t)
    r = re.match(r"\s*([+-]?\d+)" if ty["k"] == "int" else r"\s*(\S+)", x)
    if bad.a[0] or not r:
        st.store[tm.el(s, "$bad")] = c(1)
        return s
    st.store[tm.el(s, "$txt")] = mk("str", x[r.end():])
    if ty["k"] == "int":
        v, w = int(r.group(1)), ty.get("w", 32)
        if not -(1 << w - 1) <= v < (1 << w - 1):
            st.store[tm.el(s, "$bad")] = c(1)
        I.store(st, out, tm.settype(c(max(-(1 << w - 1), min((1 << w - 1) - 1, v))), I.tc(I.P.deref_type(nd.t))), n, fr)
    else:
        m11.put(I, st, out, mk("str", r.group(1)))
    return s


def stream_ok(neg):
    def h(I, n, f, this, args, argn, on, st, fr):
        b = st.store.get(tm.el(this, "$bad")) if this is not None else None
        if b is None:
            return NotImplemented
        return tm.TRUE if (b is md.ZERO or b.a[0] == 0) != neg else tm.FALSE
    return h


TEXT = dict(m11.string_models())
for _k in m11.STR:
    for _x in ("operator+=", "append", "push_back"):
        TEXT[_k + "::" + _x] = (s_append, False)
    for _x in ("rfind", "compare"):
        TEXT[_k + "::" + _x] = (folded, False)
    for _x in ("starts_with", "ends_with"):
        TEXT[_k + "::" + _x] = (starts, False)
for _k in ("std::operator==", "std::operator!="):
    TEXT[_k] = (s_equal(_k), False)
for _k in ("std::basic_istream::operator>>", "std::operator>>"):
    TEXT[_k] = (extract, False)
TEXT.update({"std::basic_ios::(conv)": (stream_ok(False), False), "std::basic_ios::operator bool": (stream_ok(False), False), "std::basic_ios::operator!": (stream_ok(True), False), "std::basic_ios::fail": (stream_ok(True), False), "std::basic_ios::good": (stream_ok(False), False)})
TEXT.update(MODELS)


def run(ctx):
    new = dict({k: m11.s_ctor for k in m11.STR}, **{"std::basic_istringstream": iss_ctor, "std::basic_stringstream": iss_ctor})
    old = {k: absint.CTORS.get(k) for k in new}
    absint.CTORS.update(new)
    try:
        check(ctx)
    finally:
        for k, v in old.items():
            if v is None:
                absint.CTORS.pop(k, None)
            else:
                absint.CTORS[k] = v


FORMATS = {"BMP": [".bmp", ".BMP"], "FITS": [".fits", ".FITS"], "HDR": [".hdr", ".HDR"], "JPEG": [".jpg", ".jpeg", ".JPG", ".JPEG"], "PNG": [".png", ".PNG"], "TGA": [".tga", ".TGA"], "TIFF": [".tif", ".tiff", ".TIF", ".TIFF"], "UNKNOWN": ["", ".", ".gif", ".pn", ".pngx", "png", ".ti"]}
READER = {"BMP": "bmp", "HDR": "hdr", "JPEG": "jpeg", "PNG": "png", "TGA": "tga", "TIFF": "tiff_rgb"}


def dispatch(ctx, W, where):
    """The format given, or the extension of the path, leads to the reader of that format, with the whole file."""
    P = W.P
    values = {}
    for f in W.fns.values():
        if f.n.startswith("value_"):
            v = W.run(f.n).val.t
            while v.op == "cast":
                v = v.a[1]
            values[f.n[6:]] = v
    ctx.require(len(values) == len(FORMATS), "the values of ImageFormat")
    FILE = mk("glob", "verif_file")
    SIZE = tm.settype(mk("glob", "verif_size"), md.U64)
    calls = []

    def reader(I, n, f, this, args, argn, on, st, fr):
        if not f.params or I.P.ty(I.P.deref_type(f.params[0]["t"]))["k"] != "ptr":
            return NotImplemented
        xs = [args[0]] + [I.subst(st, x) for x in args[1:]]
        calls.append((f.n, xs))
        return I.rec_result(n, st, fr, I.fresh(n, fr, "bundle"))

    def buffer(I, n, f, this, args, argn, on, st, fr):
        a = I.rec_result(n, st, fr, I.fresh(n, fr, "file"))
        st.store[tm.el(a, "$size")] = SIZE
        st.store[tm.el(a, "$file")] = c(1)
        buffers.append(a)
        return a

    def data(I, n, f, this, args, argn, on, st, fr):
        if tm.el(this, "$file") in st.store:
            return tm.el(DATA, c(0))
        return absint.models.MODELS["std::vector::data"][0](I, n, f, this, args, argn, on, st, fr)
    buffers = []
    ext = [""]
    models = dict(TEXT)
    for f in P.defs:
        if f.key.startswith("huira::read_image_") and f.has_body:
            models[f.key] = (reader, True)
    models.update({"huira::read_file_to_buffer": (buffer, True), "std::vector::data": (data, True),
                   "std::filesystem::path::extension": (lambda I, n, f, this, args, argn, on, st, fr: I.rec_result(n, st, fr, mk("str", ext[0])), False)})
    for k in ("string", "native", "u8string", "(conv)"):
        models["std::filesystem::path::" + k] = (lambda I, n, f, this, args, argn, on, st, fr: I.rec_result(n, st, fr, st.store.get(this) if st.store.get(this) is not None and st.store[this].op == "str" else mk("str", "dir/name" + ext[0])), False)

    def one(name, want, what, wh, pre=None, al=None):
        del calls[:]
        for alpha in (True, False):
            del calls[:]
            fn = W.fns[name]

            def start(I, st, fr):
                p = fn.params[-1]
                st.store[fr.env[p["d"]]] = c(1 if alpha else 0)
                if len(fn.params) == 4:
                    st.store[fr.env[fn.params[1]["d"]]] = tm.el(DATA, c(0))
                    st.store[fr.env[fn.params[2]["d"]]] = SIZE
                if pre:
                    pre(st, fr, fn)

            def setup(I):
                I.calm = True
                I.first_statics = True
            o, sure = W.toward(name, {}, None, models=models, unroll=40, setup=setup, pre=start)
            ctx.count("dispatch")
            site = "%s|%s" % (name, what)
            if o.stopped or not sure:
                ctx.count("undetermined")
                ctx.notes.append("%s, %s: the way is not known" % (name, what))
                continue
            if want is None:
                ctx.ob(not o.ok and not calls, "format", wh, "%s reads %s though no reader for it exists" % (name, what), site)
                continue
            got = [x[0] for x in calls]
            ctx.ob(got == [want] and o.ok, "format", wh, "%s reads %s with %s instead of %s" % (name, what, " and ".join(got) or "no reader", want), site)
            if got == [want]:
                xs = calls[0][1]
                flag = c(1 if alpha else 0)
                ok = xs[0] is tm.el(DATA, c(0)) and tm.eq(md.U64, xs[1], SIZE) is tm.TRUE and (len(xs) < 3 or tm.eq(md.I64, xs[2], flag) is tm.TRUE)
                ctx.ob(ok, "format", wh, "%s does not hand %s the whole file and the alpha setting for %s" % (name, want, what), site + "|args")
    for mono in ("", "_mono"):
        for k, exts in FORMATS.items():
            r = READER.get(k)
            want = None if r is None else "read_image_" + (r + mono if not mono else r.replace("_rgb", "") + mono)
            one("pick" + mono, want, "format " + k, where("read_image" + mono), pre=lambda st, fr, fn: st.store.__setitem__(fr.env[fn.params[0]["d"]], values[k]))
            for e in exts:
                ext[0] = e
                one("open" + mono, want, "a file with the extension %r" % e, where("read_image" + mono))
            if r:
                ext[0] = exts[0]
                one("open_%s%s" % (k.lower(), mono), want, "a file", where(want))


def check(ctx):
    cc.FUN.update(m11.FUNS)
    cc.FUN.setdefault("ldexp", lambda x, e: x * 2.0 ** e)
    W = fx.Wit(ctx, "i01.cpp", text(), flags=["-fno-access-control"])
    P = W.P
    rng = random.Random(7)

    def where(key):
        for f in P.defs:
            if f.key == "huira::" + key and f.has_body:
                return "%s:%s" % (f.file, f.line)
        ctx.require(False, "huira::" + key)
    fs = files()
    touched = 0
    for kind, F in fs:
        for mono in ("", "_mono"):
            if mono and F.want in (NO, ANY) and not ctx.thorough:
                continue
            for al in ((True, False) if not isinstance(F.want, str) and F.want[2] else (True,)):
                name = kind + mono
                wh = where("read_%s_raw_" % kind)
                fn = W.fns[name]
                size = len(F.data)
                ex = getattr(F, "exps", ())
                env = {mk("glob", "verif_b%d" % i): rng.randrange(256) if i not in ex else rng.randrange(120, 140) for i, v in enumerate(F.data) if v is None}
                bytes_ = [tm.settype(mk("glob", "verif_b%d" % i), U8) if v is None else tm.settype(c(v), U8) for i, v in enumerate(F.data)]
                out = {}
                skip = 0 if isinstance(F.want, str) else max(0, len(F.want[3]) - 16)

                def pre(I, st, fr):
                    ps = [fr.env[p["d"]] for p in fn.params]
                    st.store[ps[0]] = tm.el(DATA, c(0))
                    st.store[ps[1]] = tm.settype(c(size), md.U64)
                    st.store[ps[2]] = c(1 if al else 0)
                    st.store[ps[3]] = tm.settype(c(skip), md.I64)
                    for i, b in enumerate(bytes_):
                        st.store[tm.el(DATA, c(i))] = b

                def setup(I):
                    I.calm = True
                    I.first_statics = True
                    load, store, apply = I.load, I.store, I.apply
                    own = []

                    def apply2(f, this, *q):
                        """What a container does to its own elements is not an access of the reader."""
                        if f.clskey != "std::vector" or f.n in ("operator[]", "at", "front", "back", "data"):
                            return apply(f, this, *q)
                        own.append(this)
                        try:
                            return apply(f, this, *q)
                        finally:
                            own.pop()
                    I.apply = apply2

                    def look(st, a, how):
                        k = None
                        b = a
                        if a.op == "el" and not isinstance(a.a[1], str):
                            b = a.a[0]
                            k = const(I, st, a.a[1])
                        if k is None or I.quiet or b in own:
                            return
                        if b is DATA:
                            n = size
                        else:
                            s = st.store.get(tm.el(b, "$size"))
                            n = const(I, st, s) if s is not None else None
                        if n is not None and not 0 <= k < n:
                            out.setdefault((how, "byte %d of the file" % k if b is DATA else "element %d of a buffer of %d" % (k, n)), 1)

                    def load2(st, a, tcode=None):
                        look(st, a, "reads")
                        return load(st, a, tcode)

                    def store2(st, a, v, *q, **kw):
                        look(st, a, "writes")
                        return store(st, a, v, *q, **kw)
                    I.load, I.store = load2, store2
                what = "%s (%d bytes)" % (F.what, size)
                o, sure = W.toward(name, env, None, models=TEXT if kind == 'hdr' else MODELS, unroll=600, setup=setup, pre=pre)
                touched += 1
                site = "read_image_%s|%s" % (name, F.what)
                bad = sorted(out)[:1]
                ctx.ob(not bad, "contained", wh, "read_image_%s %s %s; the file: %s" % ((name,) + (bad[0] if bad else ("", "")) + (what,)), site + "|contained")
                if o.stopped or not sure:
                    ctx.count("undetermined")
                    ctx.notes.append("%s: the way is not known" % what)
                    continue
                if isinstance(F.want, str):
                    if F.want == NO:
                        ctx.ob(not o.ok, "refused", wh, "read_image_%s accepts a damaged file: %s" % (name, what), site + "|refused")
                    continue
                if not o.ok:
                    o.never("pixels", wh, "read_image_%s refuses a valid file: %s" % (name, what), site + "|accepted")
                    continue
                w, h, alpha, px = F.want
                v = o.vec(N)
                want = [w, h, 1 if alpha and al else 0, w if alpha and al else 0, h if alpha and al else 0]
                names = ["width", "height", "alpha present", "alpha width", "alpha height"]
                byte = lambda i: env[mk("glob", "verif_b%d" % i)] if F.data[i] is None else F.data[i]
                val = lambda i: byte(i) / 255.0
                for i, p in enumerate(px):
                    if i < skip:
                        continue
                    s = "pixel (%d, %d)" % (i % w, i // w)
                    if p[-1] == "rgbe":
                        val = lambda i, p=p: byte(i) * 2.0 ** (byte(p[3]) - 136) if byte(p[3]) else 0.0
                    if mono:
                        want.append((val(p[0]) + val(p[1]) + val(p[2])) / 3)
                        names.append(s)
                    else:
                        want += [val(q) for q in p[:3]]
                        names += [s + x for x in (" red", " green", " blue")]
                    want.append(val(p[3]) if alpha and al else 0)
                    names.append(s + " alpha")
                for i, x in enumerate(want):
                    fx.points(ctx, "pixels", "read_image_%s: %s" % (name, names[i]), v[i], [env], lambda e, x=x: float(x), wh, say=lambda e: "the file: " + what, site=site)
    dispatch(ctx, W, where)
    ctx.count("files", len(fs))
    ctx.count("readings", touched)
    ctx.cov["rule"] = "every channel of every pixel = the byte the format names; every element read or written lies in the file or the buffer; damaged files do not return"
