"""G02: the whole library instantiates for every predefined spectral type (and any user-defined bins)."""
import concurrent.futures
import os
import re

COMPILE_IS_VIOLATION = True
SPECTRA = ["RGB", "Visible8", "SWIR8", "UniformSpectralBins<5, 400, 900>"]


def member_templates():
    """The part of lib.cpp that uses the member templates of the scene classes, for any spectral type S."""
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tus", "lib.cpp")).read()
    i = t.index("struct PosCb")
    j = t.index("inline void units_uses")
    k = t.index("inline void scene_uses")
    e = t.index("\n}\n", k) + 3
    return "namespace verif_members { using namespace units;\n" + t[i:j] + re.sub(r"\bRGB\b", "S", t[k:e]) + "}\n"


def tu(s):
    return '#include "all_headers.inc"\nnamespace huira {\nusing S = %s;\n#include "inst.inc"\n%s}\n' % (s, member_templates())


def run(ctx):
    P = ctx.program()  # the members/free templates witness (lib.cpp) must type-check as well
    ctx.explanation = ("explicit instantiation of every class template forces the compiler to type-check every member function "
                       "for the spectral type; lib.cpp does the same for member templates and free templates")
    ctx.trusted = ["clang 18 and g++ 13 front ends"]
    jobs = [(s, cc) for s in SPECTRA for cc in ("clang++", "g++")]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: ctx.compile(tu(j[0]), cc=j[1]), jobs))
    inst = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tus", "inst.inc")).read()
    n = len(re.findall(r"^template (class|struct)", inst, re.M))
    ctx.count("explicit_instantiations", n * len(SPECTRA))
    # every class template of the library with a spectral parameter has to be on the list
    listed = set(re.findall(r"^template (?:class|struct) ([A-Za-z_0-9:]+)", inst, re.M))
    have = {r["key"].split("::")[-1] for r in P.records.values() if r["key"].startswith("huira::") and "(" not in r["key"]}
    missing = sorted(x for x in have if x in SPECTRAL_NAMES(P) and x not in listed)
    ctx.count("class_templates", len(listed))
    for (s, cc), (ok, log) in zip(jobs, res):
        errs = [x for x in log.splitlines() if "error:" in x]
        ctx.ob(ok, "does-not-instantiate", errs[0].split(": ")[0] if errs else "?",
               "%s with S = %s: %s" % (cc, s, errs[0].split("error:")[-1].strip() if errs else "failed"), "%s/%s" % (s, cc))
        ctx.sample("%s: %d class templates instantiated for %s" % (cc, n, s))
    ctx.notes.append("class templates without an explicit instantiation: %s" % ", ".join(missing))
    ctx.count("functions_type_checked", len([f for f in P.defs if f.has_body]))


def SPECTRAL_NAMES(P):
    return {r["key"].split("::")[-1] for r in P.records.values() if r["key"].startswith("huira::") and "SpectralBins" in r.get("q", "")}
